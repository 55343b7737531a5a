------------------------------- MODULE MCBool -------------------------------
(* Boolean operators and conditionals over every combination of true, false,*)
(* a failing operand and a number, nested twice, against their truth table. *)
EXTENDS Enumerate

Leaves == <<"true", "false", "(1 / 0)", "5">>
LeafOf == <<"T", "F", "E", "N">>
Ops2 == <<"and", "or", "xor">>
(* the programs of one operator: shape 1 leaf, 2 not, 3-5 binary, 6 conditional *)
L == 1..4
One == TLCEval(SetToSeq({<<1, a, 1, 1>> : a \in L} \cup {<<2, a, 1, 1>> : a \in L} \cup {<<s, a, b, 1>> : s \in 3..5, a \in L, b \in L}
                        \cup {<<6, a, b, c>> : a \in L, b \in L, c \in L}))
N1 == Len(One)
NBin == 5 * N1 * N1
(* all pairs under each operator, then all triples under a conditional *)
Total == NBin + N1 * N1 * N1
Sub3(k) == IF k < NBin THEN LET d == Digits(k, <<5, N1, N1>>) IN <<d[1], One[d[2]], One[d[3]], One[1]>>
           ELSE LET d == Digits(k - NBin, <<N1, N1, N1>>) IN <<6, One[d[1]], One[d[2]], One[d[3]]>>

(* the truth table, written down on its own: T F, E an error, N a number *)
Bad2(a) == a \in {"E", "N"}
Table(shape, a, b, c) ==
  CASE shape = 1 -> a
    [] shape = 2 -> IF Bad2(a) THEN "E" ELSE IF a = "T" THEN "F" ELSE "T"
    [] shape \in 3..5 /\ (Bad2(a) \/ b = "N") -> "E"
    [] shape = 3 /\ a = "F" -> "F"
    [] shape = 4 /\ a = "T" -> "T"
    [] shape \in {3, 4} -> b
    [] shape = 5 -> IF b = "E" THEN "E" ELSE IF a = b THEN "F" ELSE "T"
    [] shape = 6 -> IF Bad2(a) THEN "E" ELSE IF a = "T" THEN b ELSE c
Text(shape, a, b, c) ==
  CASE shape = 1 -> a
    [] shape = 2 -> C("not ") \o a
    [] shape \in 3..5 -> a \o C(" ") \o C(Ops2[shape - 2]) \o C(" ") \o b
    [] shape = 6 -> a \o C(" then ") \o b \o C(" else ") \o c
T1(d) == Text(d[1], C(Leaves[d[2]]), C(Leaves[d[3]]), C(Leaves[d[4]]))
V1(d) == IF d[1] \in 3..5 /\ Bad2(LeafOf[d[2]]) THEN "E" ELSE Table(d[1], LeafOf[d[2]], LeafOf[d[3]], LeafOf[d[4]])
Whole(k) == LET d == Sub3(k)
            IN [t |-> Text(d[1], Par(T1(d[2])), Par(T1(d[3])), Par(T1(d[4]))),
                v |-> Table(d[1], V1(d[2]), V1(d[3]), V1(d[4]))]
Emit(k) == LET w == Whole(k) IN <<w.t, C("[") \o w.t \o C(", 1]"), C("r = ") \o w.t>>
LawTruthTable(k) ==
  LET w == Whole(k)
      r == Ask(NewState, w.t)
  IN IF w.v = "E" THEN r.k = "exec"
     ELSE r.k = "ok" /\ LET v == LastValue(r) IN IF w.v = "N" THEN v.k = "num" ELSE v = BoolV(w.v = "T")
(* an array with it as an element fails exactly when it fails *)
LawDeferred(k) == LET w == Whole(k) r == Ask(NewState, C("[") \o w.t \o C(", 1]"))
                  IN IF w.v = "E" THEN r.k = "exec" ELSE r.k = "ok" /\ LastValue(r).k = "arr" /\ Len(LastValue(r).e) = 2

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem
vars == <<mcChunk, mcItem>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
TruthTable == mcItem >= 0 => LawTruthTable(mcItem)
Deferred == mcItem >= 0 => LawDeferred(mcItem)
=============================================================================
