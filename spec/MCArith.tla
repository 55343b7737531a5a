------------------------------ MODULE MCArith ------------------------------
(* Arithmetic on rationals: algebraic laws over triples of numbers of very  *)
(* different sizes and forms.                                               *)
EXTENDS Enumerate

Nums == << C("0"), C("1"), C("-1"), C("2"), C("-7"), C("12"), C("0.1"), C("-2.50"), C("(1/3)"), C("(-22/7)"), C("(5/6)"), C("0b101"), C("33%"), C("1E20"), C("-1E-15"),
           C("123456789012345678901234567890"), C("(1/99999999999999999999)"), C("0.000000000000000000000000000001"), C("-99999999999999999999999999.9"), C("(7-7)"), C("(-1)"), C("7z16") >>
Exps == << C("0"), C("1"), C("2"), C("3"), C("-1"), C("-2"), C("5") >>
Radix == <<Len(Nums), Len(Nums), Len(Nums), Len(Exps), Len(Exps)>>
Total == Space1(Radix)
(* over the variables a b c ex ey, which hold the numbers *)
Pre(k) == LET d == Digits(k, Radix)
          IN JoinNL(<<C("a = ") \o Nums[d[1]], C("b = ") \o Nums[d[2]], C("c = ") \o Nums[d[3]], C("ex = ") \o Exps[d[4]], C("ey = ") \o Exps[d[5]]>>)
Pairs == << <<"a + b", "b + a">>, <<"a * b", "b * a">>, <<"a * (b + c)", "a * b + a * c">>, <<"a + (b + c)", "a + b + c">>, <<"a * (b * c)", "a * b * c">>, <<"a - b + b", "a">>, <<"a - (b - c)", "a - b + c">> >>
Powers == << <<"a ^ ex * a ^ ey", "a ^ (ex + ey)">>, <<"(a ^ ex) ^ ey", "a ^ (ex * ey)">> >>
Single == << "a", "b", "a % b", "a \\ b", "a / b * b", "a < b", "a <= b", "a > b", "a >= b", "a == b", "a != b", "a + c < b + c", "(a * c) ^ ex", "a ^ ex * c ^ ex", "c" >>
NP2 == Len(Pairs)
NQ2 == Len(Powers)
AskAll == TLCEval([i \in 1..NP2 |-> C(Pairs[i][1])] \o [i \in 1..NP2 |-> C(Pairs[i][2])] \o [i \in 1..NQ2 |-> C(Powers[i][1])] \o [i \in 1..NQ2 |-> C(Powers[i][2])] \o [i \in DOMAIN Single |-> C(Single[i])])
Start(k) == Ask(NewState, Pre(k)).S
Texts(k) == AskAll
Emit(k) == <<Pre(k)>> \o AskAll
One(r, n) == r[2 * NP2 + 2 * NQ2 + n]
RECURSIVE LawFieldLaws(_, _), LawDivisionLaws(_, _), LawPowerLaws(_, _), LawOrderLaws(_, _)
LawFieldLaws(k, r) ==
  /\ \A i \in 1..NP2 : SameNumber(r[i], r[NP2 + i])
  /\ LET q == One(r, 5)
     IN IF NumAns(One(r, 2)).s = 0 THEN q.k = "exec" ELSE SameNumber(q, One(r, 1))
(* a % b takes the sign of a, is smaller than b, and differs from a by a    *)
(* whole multiple of b; a \ b is the floor of a / b                         *)
LawDivisionLaws(k, r) ==
  LET a == NumAns(One(r, 1))
      b == NumAns(One(r, 2))
      m == One(r, 3)
      f == One(r, 4)
  IN IF b.s = 0 THEN m.k = "exec" /\ f.k = "exec"
     ELSE /\ m.k = "any" \/ (/\ RLt(RAbs(NumAns(m)), RAbs(b))
                             /\ NumAns(m).s \in {0, a.s}
                             /\ RIsInt(RDiv(RSub(a, NumAns(m)), b)))
          /\ f.k = "any" \/ (/\ RIsInt(NumAns(f))
                             /\ RLe(NumAns(f), RDiv(a, b)) /\ RLt(RDiv(a, b), RAdd(NumAns(f), ROne)))
LawPowerLaws(k, r) ==
  NumAns(One(r, 1)).s # 0 => /\ \A i \in 1..NQ2 : SameNumber(r[2 * NP2 + i], r[2 * NP2 + NQ2 + i])
                             /\ NumAns(One(r, 15)).s # 0 => SameNumber(One(r, 13), One(r, 14))
LawOrderLaws(k, r) ==
  LET o == RCmp(NumAns(One(r, 1)), NumAns(One(r, 2)))
  IN /\ YesIs(One(r, 6), o < 0) /\ YesIs(One(r, 7), o <= 0) /\ YesIs(One(r, 8), o > 0)
     /\ YesIs(One(r, 9), o >= 0) /\ YesIs(One(r, 10), o = 0) /\ YesIs(One(r, 11), o # 0) /\ YesIs(One(r, 12), o < 0)

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
FieldLaws == mcItem >= 0 => LawFieldLaws(mcItem, mcSaid)
DivisionLaws == mcItem >= 0 => LawDivisionLaws(mcItem, mcSaid)
PowerLaws == mcItem >= 0 => LawPowerLaws(mcItem, mcSaid)
OrderLaws == mcItem >= 0 => LawOrderLaws(mcItem, mcSaid)
=============================================================================
