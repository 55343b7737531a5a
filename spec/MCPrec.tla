------------------------------- MODULE MCPrec -------------------------------
(* Operator precedence: every sequence of operators over a few operands is  *)
(* evaluated as written and with the brackets put where an independent      *)
(* definition (split at what binds weakest) says they belong.               *)
EXTENDS Enumerate

Binary == <<"^", "IMPLICIT_MULTIPLY", "*", "/", "%", "\\", "+", "-", "<<", ">>", "<", ">=", "==", "!=", "&", "|", "^^", "and", "or", "xor", "then">>
Level(n) == OpRow[n][1]
Operands == << <<"w", "x", "y", "z", "u1">>, <<"p", "x", "y", "q", "z">>, <<"w", "x", "p", "q", "y">>, <<"x", "p", "y", "z", "p">> >>
Setup == JoinNL(<<C("w = 6"), C("x = 2"), C("y = 3"), C("z = 5"), C("u1 = 4"), C("p = true"), C("q = false")>>)
S1 == TLCEval(Ask(NewState, Setup).S)
NOps == IF Deep = 1 THEN 4 ELSE 3
Prefixed == <<"", "not", "~">>
Radix == [i \in 1..NOps |-> Len(Binary)] \o <<Len(Operands), NOps + 1, Len(Prefixed)>>
Total == Space1(Radix)

(* a chain: operands and the operators between; "then" is followed by a     *)
(* middle operand and an "else"                                             *)
Chain(k) ==
  LET d == Digits(k, Radix)
      ops == [i \in 1..NOps |-> Binary[d[i]]]
      row == Operands[d[NOps + 1]]
      pos == d[NOps + 2]
      pre == Prefixed[d[NOps + 3]]
  IN [ops |-> ops, os |-> [i \in 1..(NOps + 1) |-> row[i]],
      pre |-> IF pre = "" \/ (pos > 1 /\ ops[pos - 1] \in {"^", "IMPLICIT_MULTIPLY"}) THEN <<0, "">> ELSE <<pos, pre>>]
OpText(n) == IF n = "IMPLICIT_MULTIPLY" THEN C(" ") ELSE IF n = "then" THEN C(" then 9 else ") ELSE C(" ") \o C(n) \o C(" ")
Pre(it, i) == IF it.pre[1] = i THEN C(it.pre[2]) \o C(" ") ELSE <<>>
Flat(it) == Cat(<<Pre(it, 1), C(it.os[1])>> \o [i \in 1..(2 * NOps) |-> IF i % 2 = 1 THEN OpText(it.ops[(i + 1) \div 2])
                                                                          ELSE Pre(it, i \div 2 + 1) \o C(it.os[i \div 2 + 1])])
(* the text of operands a..b fully bracketed; lead says whether a prefix    *)
(* operator before operand a is still to be placed                          *)
RECURSIVE Bracket(_, _, _, _)
Bracket(it, a, b, lead) ==
  IF a = b THEN (IF lead THEN Par(Pre(it, a) \o C(it.os[a])) ELSE C(it.os[a]))
  ELSE LET weakest == CHOOSE i \in a..(b - 1) : \A j \in a..(b - 1) : Level(it.ops[j]) < Level(it.ops[i]) \/ (Level(it.ops[j]) = Level(it.ops[i]) /\ j <= i)
       IN IF lead /\ Level(it.ops[weakest]) < 2
          THEN Par(Pre(it, a) \o Bracket(it, a, b, FALSE))
          ELSE Par(Bracket(it, a, weakest, lead) \o OpText(it.ops[weakest]) \o Bracket(it, weakest + 1, b, it.pre[1] = weakest + 1))
(* "a then 9 else b": the middle operand needs no bracket, the rest has its own *)
Bracketed(it) == Bracket(it, 1, NOps + 1, it.pre[1] = 1)

Emit(k) == <<Setup, Flat(Chain(k)), Bracketed(Chain(k))>>
(* writing the implied brackets never changes the outcome *)
LawBracketsChangeNothing(k) ==
  LET it == Chain(k)
      f == Ask(S1, Flat(it))
      b == Ask(S1, Bracketed(it))
  IN /\ f.k # "parse" /\ b.k # "parse"
     /\ f.k = "any" \/ b.k = "any" \/ Answers(f) = Answers(b)

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem
vars == <<mcChunk, mcItem>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
BracketsChangeNothing == mcItem >= 0 => LawBracketsChangeNothing(mcItem)
=============================================================================
