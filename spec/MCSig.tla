------------------------------- MODULE MCSig -------------------------------
(* Argument lists: every function with up to four arguments and every        *)
(* operator with two, each of them any kind of value.                        *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawOnlyTheDeclaredCounts(_, _), LawRefusalsDoNothing(_, _)
Called == TLCEval(SetToSeq({FuncName[k] : k \in FuncNames} \ {"now"}))
Between2 == <<"+", "-", "*", "/", "%", "\\", "^", "<", "<=", ">", ">=", "==", "!=", "&", "|", "^^", "<<", ">>", "and", "or", "xor", "+$", "*$", "<$", "==$", "<~", "==~", "=~", "!~", "to", "=", "||=", "+=", "-=", "*=", "/=", "^=", "%=", "\\=", "+%", "-%", "then", "then 1 else">>
Before1 == <<"~", "not ">>
After1 == <<"++", "--">>
NCalled == Len(Called)
NBetween == Len(Between2)
Kinds == <<"2", "-3", "2.5", "0b110", "3 m", "2.5 s", "km", "true", "'abc'", "'12'", "'2020-02-29'", "'2019-12-31T23:59:58.5'", "[1, 2, 3]", "[2 m, 300 cm]", "['a', 'b']",
           "[true, false, true]", "[[1, 2], [3]]", "x", "zz", "(1 / 0)", "[x, 'a']", "[1..4]", "aa", "arr", "0", "seconds">>
NKinds == Len(Kinds)
Radix == <<NCalled + NBetween, NKinds, NKinds, 3>>
Total == Space1(Radix)
Ready == TLCEval(Ask(NewState, C("x = 5") \o <<NL>> \o C("aa = 'abc'") \o <<NL>> \o C("arr = [3, 1, 2]")).S)
It(k) == LET d == Digits(k, Radix)
             kind(i) == C(Kinds[i])
         IN [f |-> d[1], fun |-> d[1] <= NCalled, n |-> IF d[1] <= NCalled THEN Called[d[1]] ELSE Between2[d[1] - NCalled],
             a |-> kind(d[2]), b |-> kind(d[3]), c |-> kind(1 + ((d[2] * 7 + d[3] * 5 + d[4] * 9) % NKinds)), e |-> kind(1 + ((d[2] + d[3] + d[4] * 11) % NKinds)), kk |-> d[4]]
Args(as) == Par(IF as = <<>> THEN <<>> ELSE FoldLeft(LAMBDA acc, i : acc \o C(", ") \o as[i + 1], as[1], [i \in 1..(Len(as) - 1) |-> i]))
Start(k) == Ready
Lists(e) == << <<>>, <<e.a>>, <<e.a, e.b>>, <<e.a, e.b, e.c>>, <<e.a, e.b, e.c, e.e>> >>
Texts(k) == LET e == It(k)
            IN IF e.fun THEN [i \in 1..5 |-> C(e.n) \o Args(Lists(e)[i])]
               ELSE IF e.n = "then 1 else" THEN <<Bin(e.a, "then", e.c) \o C(" else ") \o e.b>>
               ELSE <<Bin(e.a, e.n, e.b), Bin(e.b, e.n, e.a)>>
Emit(k) == LET e == It(k) t == Texts(k)
           IN <<C("x = 5") \o <<NL>> \o C("aa = 'abc'") \o <<NL>> \o C("arr = [3, 1, 2]")>> \o t
              \o (IF e.fun THEN <<>> ELSE <<C(Before1[1 + (k % 2)]) \o e.a, e.b \o C(After1[1 + (k % 2)])>>) \o <<C("x"), C("aa"), C("arr"), C("zz")>>
LawOnlyTheDeclaredCounts(k, r) ==
  LET e == It(k) sig == SigTable[e.n]
  IN e.fun => \A i \in DOMAIN r : ((r[i].k = "ok" /\ LastValue(r[i]).k # "arr") => i - 1 >= sig.min /\ (i - 1 <= sig.max \/ MustBeArray(sig, 1))) /\ r[i].k # "parse"
LawRefusalsDoNothing(k, r) == \A i \in DOMAIN r : r[i].k \in {"exec", "parse"} /\ ~r[i].S.any => r[i].S.v = Ready.v

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
OnlyTheDeclaredCounts == mcItem >= 0 => LawOnlyTheDeclaredCounts(mcItem, mcSaid)
RefusalsDoNothing == mcItem >= 0 => LawRefusalsDoNothing(mcItem, mcSaid)
=============================================================================
