------------------------------- MODULE MCBits -------------------------------
(* Bitwise operators on pairs of small and large integers, written in         *)
(* decimal, binary of several widths, octal and hexadecimal.                 *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawBitByBit(_, _), LawShiftsArePowers(_, _), LawFlips(_, _)
Writ == << "0", "1", "2", "3", "5", "7", "8", "12", "15", "16", "21", "31", "100", "127", "128", "255", "256", "0b0", "0b1", "0b10", "0b101", "0b0101", "0b00000000", "0b11111111", "0b10000000", "0b0110011",
           "0b1000000000000001", "0b00000000000000000000000000000001", "0xff", "0x10", "0xdeadbeef", "0o17", "0o777", "4294967295", "4294967296", "18446744073709551615", "1267650600228229401496703205376",
           "0b1111111111111111111111111111111111111111111111111111111111111111111111", "99999999999999999999999999999999999999999999999999999999999", "0b0000000000000000000000000000000000000000000000000000000000000000000000010", "36z102", "0b1.0", "6 / 2" >>
NWrit == Len(Writ)
IntStr(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Radix == <<NWrit, NWrit, 4, 18>>
Total == Space1(Radix)
It(k) == LET d == Digits(k, Radix)
             sg(b, t) == IF b THEN C("(-1 * ") \o C(t) \o C(")") ELSE Par(C(t))
         IN [a |-> sg(d[3] \in {2, 4}, Writ[d[1]]), b |-> sg(d[3] \in {3, 4}, Writ[d[2]]), apos |-> d[3] \in {1, 3}, pa |-> C(Writ[d[1]]), pb |-> C(Writ[d[2]]), c |-> Par(C(Writ[1 + ((d[1] * 3 + d[2]) % NWrit)])), n |-> IntStr((d[4] - 1) * (IF d[4] > 12 THEN 5 ELSE 1)), nn |-> (d[4] - 1) * (IF d[4] > 12 THEN 5 ELSE 1)]
Start(k) == NewState
Texts(k) == LET e == It(k) a == e.a b == e.b
            IN <<a, b, Bin(a, "&", b), Bin(a, "|", b), Bin(a, "^^", b), Bin(b, "&", a), Bin(b, "|", a), Bin(b, "^^", a), Bin(a, "<<", e.n), Bin(a, ">>", e.n), Bin(Par(Bin(a, "<<", e.n)), ">>", e.n), Bin(Par(Bin(a, "^^", b)), "^^", b),
                 Bin(a, "&", Par(Bin(b, "|", e.c))), Bin(Par(Bin(a, "&", b)), "|", Par(Bin(a, "&", e.c))), C("~") \o a, C("~") \o Par(C("~") \o a), Bin(C("2"), "^", e.n)>>
Emit(k) == LET e == It(k) a == e.a b == e.b
           IN <<Bin(a, "&", b), Bin(a, "|", b), Bin(a, "^^", b), Bin(a, "<<", e.n), Bin(a, ">>", e.n), C("~") \o a, C("~~") \o e.pb, C("~") \o Par(C("~") \o a), Bin(Par(C("~") \o a), "&", b), Bin(Par(Bin(a, "|", b)), "^^", e.c), C("~") \o Par(Bin(a, "|", b)), C("~") \o Par(Bin(e.pa, "<<", e.n)),
                C("x = ") \o e.pa \o <<NL>> \o C("y = ") \o e.pb, C("x & y | ") \o e.c, C("x ^^ y & x"), C("x << 1 | y >> 1"), C("~x & ~y"), C("x += y") \o <<NL>> \o C("~x"), C("'' +$ (x & y)"), Bin(a, "&", C("1.5")), Bin(C("[") \o e.pa \o C(", ") \o e.pb \o C("]"), "|", e.c), C("x << -1"), C("x >> 0.5"), C("[~x, ~y]"),
                Bin(e.pa, "&", e.pb), Bin(e.pa, "|", C("1 << ") \o e.n)>>
V(r, i) == NumAns(r[i])
Known(r, is) == \A i \in is : HasNum(r[i]) /\ ~Loose(LastValue(r[i]))
LawBitByBit(k, r) ==
  /\ Known(r, 1..5) => /\ REq(RAdd(V(r, 3), V(r, 4)), RAdd(V(r, 1), V(r, 2)))
                       /\ REq(V(r, 5), RSub(V(r, 4), V(r, 3)))
                       /\ SameNumber(r[3], r[6]) /\ SameNumber(r[4], r[7]) /\ SameNumber(r[5], r[8])
  /\ SameNumber(r[13], r[14])
  /\ Known(r, {1, 12}) => REq(V(r, 12), V(r, 1))
LawShiftsArePowers(k, r) ==
  Known(r, {1, 9, 10, 11, 17}) => /\ REq(V(r, 9), RMul(V(r, 1), V(r, 17)))
                                  /\ LET q == RSub(RDiv(V(r, 1), V(r, 17)), V(r, 10)) IN RLe(RZero, q) /\ RLt(q, ROne)
                                  /\ REq(V(r, 11), V(r, 1))
LawFlips(k, r) == LET a == LastValue(r[1])
                      binary == a.k = "num" /\ a.c.t = "bin" /\ a.w > 0
                  IN /\ (HasNum(r[16]) /\ binary) => REq(V(r, 16), V(r, 1)) /\ LastValue(r[16]).w = a.w
                     /\ (HasNum(r[1]) /\ V(r, 1).s = -1) => r[15].k # "ok"

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
BitByBit == mcItem >= 0 => LawBitByBit(mcItem, mcSaid)
ShiftsArePowers == mcItem >= 0 => LawShiftsArePowers(mcItem, mcSaid)
Flips == mcItem >= 0 => LawFlips(mcItem, mcSaid)
=============================================================================
