----------------------------- MODULE MCQuantity -----------------------------
(* Arithmetic on quantities: every pair of units with powers, each side also *)
(* written in another unit of its dimension.                                 *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawTheUnitsWrittenDoNotMatter(_, _), LawSumsUndo(_, _), LawOnlyLikeQuantitiesMix(_, _), LawComparisonIsOfQuantities(_, _)
Wanted == <<"meters", "kilometers", "centimeters", "inches", "feet", "miles", "acres", "hectares", "liters", "grams", "kilograms", "tonnes", "pounds", "ounces",
            "seconds", "milliseconds", "minutes", "hours", "days", "years", "newtons", "joules", "kilojoules", "watts", "kilowatts", "hertz", "pascals", "amperes", "volts", "ohms", "coulombs",
            "bytes", "bits", "megabytes", "kilobits", "knots", "radians", "degrees", "lumens", "moles", "lightyears", "parsecs", "nautical miles">>
Usable == TLCEval(SelectSeq([i \in DOMAIN Wanted |-> C(Wanted[i])], LAMBDA n : n \in DOMAIN NameTab))
Kin(n) == SelectSeq(Usable, LAMBDA m : NameTab[m].d = NameTab[n].d)
Kinds == TLCEval([n \in {Usable[i] : i \in DOMAIN Usable} |-> Kin(n)])
NU == Len(Usable)
Amounts == << C("1"), C("2.5"), C("-40"), C("(1/3)"), C("1200"), C("0.004"), C("7"), C("0") >>
Exps == << 1, 1, 2, -1, 3, -2 >>
Radix == <<NU, NU, 6, 6, 8, 8, 5>>
Total == Space1(Radix)
PowText(p) == IF p = 1 THEN <<>> ELSE C("^") \o (IF p < 0 THEN C("-") ELSE <<>>) \o <<48 + (IF p < 0 THEN -p ELSE p)>>
It(k) == LET d == Digits(k, Radix)
             n1 == Usable[d[1]]  n2 == Usable[d[2]]  n3 == Usable[1 + ((d[1] * 5 + d[2] * 3 + d[5] + d[7]) % NU)]
             kin(n, i) == Kinds[n][1 + (i % Len(Kinds[n]))]
             e1 == PowText(Exps[d[3]])  e2 == PowText(Exps[d[4]])
             q(v, n, e) == v \o C(" ") \o n \o e
         IN [a |-> q(Amounts[d[5]], n1, e1), ua |-> kin(n1, d[7]) \o e1, a2 |-> q(Amounts[d[6]], kin(n1, d[7] + d[5] + d[6]), e1), b |-> q(Amounts[d[6]], n2, e2), ub |-> kin(n2, d[7]) \o e2,
             c |-> q(Amounts[1 + ((d[5] + d[6]) % 7)], n3, <<>>), da |-> DMul(NameTab[n1].d, Exps[d[3]]), db |-> DMul(NameTab[n2].d, Exps[d[4]]), zero |-> d[6] = 8, azero |-> d[5] = 8]
Start(k) == NewState
In(q, u) == Par(Par(q) \o C(" to ") \o u)
Texts(k) == LET e == It(k) a == Par(e.a) a2 == Par(e.a2) b == Par(e.b)
            IN <<a, Bin(a, "*", b), Bin(In(e.a, e.ua), "*", b), Bin(b, "*", In(e.a, e.ua)), Bin(a, "/", b), Bin(In(e.a, e.ua), "/", In(e.b, e.ub)),
                 Bin(a, "+", a2), Bin(a2, "+", a), Bin(a, "-", a2), Bin(C("-1 "), "*", Par(Bin(a2, "-", a))), Bin(Par(Bin(a, "*", b)), "/", b), Bin(a, "+", b),
                 Bin(a, "==", In(e.a, e.ua)), Bin(a, "<", a2), Bin(a2, ">", a), Bin(a, "<=", a2), Bin(a, "==", a2), Bin(a, "<", In(e.a2, e.ua)), Bin(a, "<", b), Bin(a, "*", Par(Bin(a, "+", a2))), Bin(Bin(a, "^", C("2")), "+", Bin(a, "*", a2))>>
Emit(k) == LET e == It(k) a == Par(e.a) a2 == Par(e.a2) b == Par(e.b) c == Par(e.c)
           IN <<C("x = ") \o e.a \o <<NL>> \o C("y = ") \o e.b \o <<NL>> \o C("z = ") \o e.a2, Bin(a, "*", b), Bin(In(e.a, e.ua), "*", In(e.b, e.ub)), Bin(a, "/", b), C("x * y"), C("y / x"), C("x + z"), C("z - x"), C("x * y / z"), C("(x / z) * y"),
                Bin(a, "+", b), Bin(Bin(a, "*", b), "/", c), Bin(Bin(a, "/", b), "/", c), C("(x * y) ^ 2"), C("(x / y) ^ -1"), C("x < z") \o <<NL>> \o C("x == z") \o <<NL>> \o C("z >= x"), C("x / z"), e.a \o C(" * 3"), C("2 / ") \o e.a, C("x * y == ") \o Bin(In(e.a, e.ua), "*", b),
                C("x < y"), C("x + 1")>>
Quantity(r) == LET v == LastValue(r) IN IF v.u.o = "-" THEN <<v.r, D0>> ELSE <<RMul(v.r, v.u.f), v.u.d>>
Physical(a, b) == a.k = "any" \/ b.k = "any" \/ (a.k = b.k /\ (a.k = "ok" => LastValue(a).k = "num" /\ LastValue(b).k = "num" /\ REq(Quantity(a)[1], Quantity(b)[1]) /\ Quantity(a)[2] = Quantity(b)[2]))
LawTheUnitsWrittenDoNotMatter(k, r) ==
  LET e == It(k)
  IN /\ Physical(r[2], r[3]) /\ Physical(r[2], r[4]) /\ Physical(r[5], r[6])
     /\ HasNum(r[2]) => LET q == Quantity(r[1]) p == Quantity(r[2]) IN p[2] = DAdd(e.da, e.db)
     /\ HasNum(r[5]) => Quantity(r[5])[2] = DAdd(e.da, DMul(e.db, -1))
LawSumsUndo(k, r) ==
  LET e == It(k)
  IN /\ Physical(r[7], r[8]) /\ Physical(r[9], r[10]) /\ (~e.zero => Physical(r[11], r[1])) /\ Physical(r[20], r[21])
     /\ (e.zero => r[11].k \in {"exec", "any"})
LawOnlyLikeQuantitiesMix(k, r) ==
  LET e == It(k)
  IN /\ (e.da = e.db \/ r[12].k = "any") \/ r[12].k = "exec"
     /\ (e.da = e.db) => r[12].k # "exec"
     /\ (e.da # e.db /\ r[19].k # "any") => r[19].k = "exec"
LawComparisonIsOfQuantities(k, r) ==
  LET yes(i) == r[i].k = "ok" /\ LastValue(r[i]).b
      known == \A i \in 13..18 : r[i].k = "ok"
  IN known => /\ yes(13) /\ (yes(14) = yes(15)) /\ (yes(16) = (yes(14) \/ yes(17))) /\ ~(yes(14) /\ yes(17)) /\ (yes(14) = yes(18))
              /\ (HasNum(r[9]) => yes(14) = (NumAns(r[9]).s < 0) /\ yes(17) = (NumAns(r[9]).s = 0))

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
TheUnitsWrittenDoNotMatter == mcItem >= 0 => LawTheUnitsWrittenDoNotMatter(mcItem, mcSaid)
SumsUndo == mcItem >= 0 => LawSumsUndo(mcItem, mcSaid)
OnlyLikeQuantitiesMix == mcItem >= 0 => LawOnlyLikeQuantitiesMix(mcItem, mcSaid)
ComparisonIsOfQuantities == mcItem >= 0 => LawComparisonIsOfQuantities(mcItem, mcSaid)
=============================================================================
