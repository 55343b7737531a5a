-------------------------------- MODULE Rat --------------------------------
(* Exact rational numbers [s |-> sign, n |-> natural, d |-> natural > 0].    *)
(* They are brought to lowest terms where that is cheap (see RNew); equality *)
(* is decided by cross-multiplication, never by representation.             *)
EXTENDS Big

RZero == [s |-> 0, n |-> BZero, d |-> BOne]
ROne  == [s |-> 1, n |-> BOne, d |-> BOne]

RNew(s, n, d) ==
  IF n = <<>> THEN RZero
  ELSE IF d = <<1>> THEN [s |-> s, n |-> n, d |-> d]
  ELSE IF Len(d) <= 12
       THEN LET g == BGcd(n, d)
            IN IF g = <<1>> THEN [s |-> s, n |-> n, d |-> d]
               ELSE [s |-> s, n |-> BDiv(n, g), d |-> BDiv(d, g)]
       ELSE [s |-> s, n |-> n, d |-> d]
RRaw(s, n, d) == IF n = <<>> THEN RZero ELSE [s |-> s, n |-> n, d |-> d]

RInt(i) == IF i = 0 THEN RZero ELSE IF i > 0 THEN RRaw(1, BNat(i), BOne) ELSE RRaw(-1, BNat(-i), BOne)
RFrac(i, j) == IF i >= 0 THEN RNew(1, BNat(i), BNat(j)) ELSE RNew(-1, BNat(-i), BNat(j))
RBig(n) == RRaw(1, n, BOne)

RNeg(a) == [a EXCEPT !.s = -a.s]
RAbs(a) == IF a.s < 0 THEN [a EXCEPT !.s = 1] ELSE a

(* signed sum of s1*n1 and s2*n2 as <<sign, natural>> *)
SAdd(s1, n1, s2, n2) ==
  IF s1 = 0 THEN <<s2, n2>> ELSE IF s2 = 0 THEN <<s1, n1>>
  ELSE IF s1 = s2 THEN <<s1, BAdd(n1, n2)>>
  ELSE LET c == BCmp(n1, n2)
       IN IF c = 0 THEN <<0, <<>>>> ELSE IF c > 0 THEN <<s1, BSub(n1, n2)>> ELSE <<s2, BSub(n2, n1)>>

RAdd(a, b) ==
  IF a.d = b.d THEN LET t == SAdd(a.s, a.n, b.s, b.n) IN RNew(t[1], t[2], a.d)
  ELSE LET t == SAdd(a.s, BMul(a.n, b.d), b.s, BMul(b.n, a.d)) IN RNew(t[1], t[2], BMul(a.d, b.d))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == RNew(a.s * b.s, BMul(a.n, b.n), BMul(a.d, b.d))
RInv(a) == [s |-> a.s, n |-> a.d, d |-> a.n]          \* a # 0
RDiv(a, b) == RMul(a, RInv(b))                        \* b # 0

RCmp(a, b) ==
  IF a.s < b.s THEN -1 ELSE IF a.s > b.s THEN 1 ELSE IF a.s = 0 THEN 0
  ELSE IF a.d = b.d THEN a.s * BCmp(a.n, b.n)
  ELSE a.s * BCmp(BMul(a.n, b.d), BMul(b.n, a.d))
REq(a, b) == IF a.s # b.s THEN FALSE
             ELSE IF a.s = 0 THEN TRUE
             ELSE IF a.d = b.d THEN a.n = b.n ELSE BMul(a.n, b.d) = BMul(b.n, a.d)
RLt(a, b) == RCmp(a, b) < 0
RLe(a, b) == RCmp(a, b) <= 0
RMinOf(a, b) == IF RLt(b, a) THEN b ELSE a

RIsZero(a) == a.s = 0
RIsInt(a) == a.s = 0 \/ a.d = <<1>> \/ BMod(a.n, a.d) = <<>>
(* floor and truncation, as rationals; RFloor(a) <= a < RFloor(a) + 1 *)
RTrunc(a) == RRaw(a.s, BDiv(a.n, a.d), BOne)
RFloor(a) == IF a.s >= 0 THEN RTrunc(a)
             ELSE LET qr == BDivMod(a.n, a.d)
                  IN IF qr[2] = <<>> THEN RRaw(-1, qr[1], BOne) ELSE RRaw(-1, BAddN(qr[1], 1), BOne)
RCeil(a) == RNeg(RFloor(RNeg(a)))
(* nearest integer, halves away from zero *)
RRound(a) == LET t == BDivMod(BAdd(BMulN(a.n, 2), a.d), BMulN(a.d, 2))
             IN RRaw(a.s, t[1], BOne)
(* integer as a native number; only for small integers *)
RToInt(a) == LET b == IF a.d = <<1>> THEN a.n ELSE BDiv(a.n, a.d) IN a.s * BToNat(b)
RIsSmallInt(a) == RIsInt(a) /\ BSmall(IF a.d = <<1>> THEN a.n ELSE BDiv(a.n, a.d))

(* integer power, exponent a native integer *)
RPow(a, k) == IF k >= 0 THEN RNew(IF a.s < 0 /\ k % 2 = 0 THEN 1 ELSE IF k = 0 THEN 1 ELSE a.s, BPow(a.n, k), BPow(a.d, k))
              ELSE LET r == RInv(a) m == -k
                   IN RNew(IF r.s < 0 /\ m % 2 = 0 THEN 1 ELSE r.s, BPow(r.n, m), BPow(r.d, m))

RTen(k) == IF k >= 0 THEN RRaw(1, BTen(k), BOne) ELSE RRaw(1, BOne, BTen(-k))
=============================================================================
