------------------------------ MODULE MCRound ------------------------------
(* Printing and rounding: numbers made of digit patterns around the last    *)
(* place kept, near halves, near carries and near zero.                     *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawPrintedToTheDigit(_, _), LawNearestAboveBelow(_, _)

Wholes == << "0", "1", "9", "99999", "12345678901234567890", "-0", "-1", "-9", "-10", "100" >>
Starts == << "", "0", "9", "00", "99", "49", "5", "04", "95", "000" >>
Ends == << "", "5", "4", "6", "49", "50", "51", "499999", "500001", "999999",
          "4999999999995", "49999999999999999999", "4999999999999999999999999999999999996", "50000000000000000000001", "949999999999999999", "44444444444445" >>
Pads == << 0, 1, 2, 5, 12, 26, 27, 28, 29, 30, 31 >>    \* digits between
Fills == << "0", "9" >>
Units1 == << "", " m", " km" >>
Radix == <<Len(Wholes), Len(Starts), Len(Ends), Len(Pads), Len(Fills), 7>>
Total == Space1(Radix)
IntDigits(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
It(k) == LET d == Digits(k, Radix)
             f == C(Starts[d[2]]) \o [i \in 1..Pads[d[4]] |-> C(Fills[d[5]])[1]] \o C(Ends[d[3]])
             places == CASE d[6] = 1 -> 0 [] d[6] = 2 -> 1 [] d[6] = 3 -> BMax(0, Len(f) - 1) [] d[6] = 4 -> BMax(0, Len(f) - 2) [] d[6] = 5 -> 29 [] d[6] = 6 -> 30 [] d[6] = 7 -> 3
         IN [t |-> C(Wholes[d[1]]) \o (IF f = <<>> THEN <<>> ELSE C(".") \o f), places |-> places, n |-> IntDigits(places), u |-> C(Units1[1 + (k % 3)])]
Start(k) == NewState
Texts(k) == LET e == It(k) IN <<e.t, FnOf2("round", e.t, e.n), FnOf2("floor", e.t, e.n), FnOf2("ceil", e.t, e.n), C("0 - (") \o FnOf2("round", C("0 - ") \o e.t, e.n) \o C(")")>>
Emit(k) == LET e == It(k)
               q == Par(e.t \o e.u)
           IN <<e.t, C("x = ") \o e.t \o C(" / 3"), FnOf2("round", q, e.n), FnOf2("floor", q, e.n), FnOf2("ceil", q, e.n), FnOf1("round", q), FnOf1("floor", C("-1 * ") \o q), FnOf1("ceil", C("x")), C("x * -1"), FnOf2("round", C("x") \o e.u, e.n), C("'' +$ ") \o q>>
LawPrintedToTheDigit(k, r) ==
  HasNum(r[1]) => LET v == LastValue(r[1])
                      p == PrintNum(v)
                      n == StrNum(p[2])
                  IN p[1] => /\ n[1] = Len(p[2]) + 1
                             /\ n[2].k = "num" => /\ RLe(RMul(RInt(2), RAbs(RSub(n[2].r, v.r))), RTen(-30))
                                                  /\ RIsInt(RMul(v.r, RTen(30))) => REq(n[2].r, v.r)
                             /\ p[2] # C("-0") /\ ~(p[2][Len(p[2])] = 48 /\ 46 \in {p[2][i] : i \in DOMAIN p[2]}) /\ p[2][Len(p[2])] # 46
LawNearestAboveBelow(k, r) ==
  (\A i \in 1..5 : HasNum(r[i])) =>
    LET x == NumAns(r[1])
        s == RTen(It(k).places)
        u == RTen(-It(k).places)
        at(i) == NumAns(r[i])
    IN /\ \A i \in 2..4 : RIsInt(RMul(at(i), s))
       /\ RLe(RMul(RInt(2), RAbs(RSub(at(2), x))), u)
       /\ RLe(at(3), x) /\ RLt(x, RAdd(at(3), u))
       /\ RLe(x, at(4)) /\ RLt(at(4), RAdd(x, u))
       /\ REq(at(2), at(5))           \* halves go away from zero

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
PrintedToTheDigit == mcItem >= 0 => LawPrintedToTheDigit(mcItem, mcSaid)
NearestAboveBelow == mcItem >= 0 => LawNearestAboveBelow(mcItem, mcSaid)
=============================================================================
