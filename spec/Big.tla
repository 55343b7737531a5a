-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size, written in pure TLA+ because TLC's own      *)
(* integers are 32-bit.  A natural is the sequence of its base-1000 digits  *)
(* ("limbs"), least significant first, without leading zeros; <<>> is 0.    *)
EXTENDS Integers, Sequences, TLC, SequencesExt

BASE == 1000

BZero == <<>>
BOne  == <<1>>

IsBig(a) == /\ \A i \in 1..Len(a) : a[i] \in 0..(BASE - 1)
            /\ (Len(a) > 0 => a[Len(a)] # 0)

RECURSIVE BNat(_)
BNat(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o BNat(n \div BASE)

(* defined for naturals below 10^9 only *)
BSmall(a) == Len(a) <= 3
BToNat(a) == CASE Len(a) = 0 -> 0
               [] Len(a) = 1 -> a[1]
               [] Len(a) = 2 -> a[1] + BASE * a[2]
               [] OTHER -> a[1] + BASE * a[2] + BASE * BASE * a[3]

RECURSIVE BTrim(_)
BTrim(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE BCmpFrom(_, _, _)
BCmpFrom(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE BCmpFrom(a, b, i - 1)
BCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1
              ELSE BCmpFrom(a, b, Len(a))
BLe(a, b) == BCmp(a, b) <= 0
BLt(a, b) == BCmp(a, b) < 0

(* Carry propagation over a sequence of column sums (each below 2^31 - 10^6) *)
RECURSIVE BCarryOut(_, _)
BCarryOut(out, c) == IF c = 0 THEN out ELSE BCarryOut(Append(out, c % BASE), c \div BASE)
BCarry(cols) ==
  LET r == FoldLeft(LAMBDA acc, x : LET t == x + acc[2] IN <<Append(acc[1], t % BASE), t \div BASE>>,
                    <<<<>>, 0>>, cols)
  IN BTrim(BCarryOut(r[1], r[2]))

BDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
BMax(x, y) == IF x >= y THEN x ELSE y
BMin(x, y) == IF x <= y THEN x ELSE y

BAdd(a, b) ==
  IF a = <<>> THEN b ELSE IF b = <<>> THEN a
  ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN BNat(a[1] + b[1])
  ELSE BCarry([i \in 1..BMax(Len(a), Len(b)) |-> BDigit(a, i) + BDigit(b, i)])

(* a - b for a >= b *)
BSub(a, b) ==
  IF b = <<>> THEN a
  ELSE IF Len(a) = 1 THEN BNat(a[1] - b[1])
  ELSE BCarry([i \in 1..Len(a) |-> a[i] - BDigit(b, i)])

RECURSIVE BColSum(_, _, _, _, _)
BColSum(a, b, k, i, hi) == IF i > hi THEN 0 ELSE a[i] * b[k + 1 - i] + BColSum(a, b, k, i + 1, hi)
BCol(a, b, k) == BColSum(a, b, k, BMax(1, k + 1 - Len(b)), BMin(Len(a), k))
BMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE IF a = <<1>> THEN b ELSE IF b = <<1>> THEN a
  ELSE IF Len(a) = 1 /\ Len(b) = 1 THEN BNat(a[1] * b[1])
  ELSE BCarry([k \in 1..(Len(a) + Len(b) - 1) |-> BCol(a, b, k)])

(* times / plus a native natural below 10^6 *)
BMulN(a, n) == IF n = 0 THEN <<>> ELSE BCarry([i \in 1..Len(a) |-> a[i] * n])
BAddN(a, n) == BAdd(a, BNat(n))

(* Long division.  The trial quotient digit comes from the leading limbs and *)
(* is never too large; it is corrected upwards until the remainder is below  *)
(* the divisor.                                                             *)
BTop3(r, n) == BDigit(r, n) + BASE * (BDigit(r, n + 1) + BASE * BDigit(r, n + 2))
BTrial(r, d) ==
  IF Len(d) = 1 THEN (BDigit(r, 1) + BASE * BDigit(r, 2)) \div d[1]
  ELSE LET n == Len(d) - 1
       IN BTop3(r, n) \div (d[n] + BASE * d[n + 1] + 1)
RECURSIVE BQDigit(_, _, _)
BQDigit(r, d, q) ==
  IF BLt(r, d) THEN <<q, r>>
  ELSE LET t == BTrial(r, d)
           s == IF t = 0 THEN 1 ELSE t
       IN BQDigit(BSub(r, BMulN(d, s)), d, q + s)
RECURSIVE BDivLoop(_, _, _, _)
BDivLoop(a, d, i, st) ==       \* st = <<quotient limbs (most significant first), remainder>>
  IF i = 0 THEN st
  ELSE LET r  == IF st[2] = <<>> THEN (IF a[i] = 0 THEN <<>> ELSE <<a[i]>>) ELSE <<a[i]>> \o st[2]
           qr == BQDigit(r, d, 0)
       IN BDivLoop(a, d, i - 1, <<Append(st[1], qr[1]), qr[2]>>)
BDivMod(a, d) ==
  IF BLt(a, d) THEN <<<<>>, a>>
  ELSE IF BSmall(a) THEN <<BNat(BToNat(a) \div BToNat(d)), BNat(BToNat(a) % BToNat(d))>>
  ELSE IF d = <<1>> THEN <<a, <<>>>>
  ELSE LET st == BDivLoop(a, d, Len(a), <<<<>>, <<>>>>)
       IN <<BTrim(Reverse(st[1])), st[2]>>
BDiv(a, d) == BDivMod(a, d)[1]
BMod(a, d) == BDivMod(a, d)[2]

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN BOne
              ELSE LET h == BPow(a, n \div 2)
                       h2 == BMul(h, h)
                   IN IF n % 2 = 1 THEN BMul(h2, a) ELSE h2

BTen(n) == LET z == TLCEval([i \in 1..(n \div 3) |-> 0])
           IN IF n = 0 THEN BOne
              ELSE z \o (CASE n % 3 = 0 -> <<1>> [] n % 3 = 1 -> <<10>> [] OTHER -> <<100>>)

RECURSIVE NGcd(_, _)
NGcd(a, b) == IF b = 0 THEN a ELSE NGcd(b, a % b)
BEven(a) == a = <<>> \/ a[1] % 2 = 0
RECURSIVE BGcd(_, _)
BGcd(a, b) == IF b = <<>> THEN a
              ELSE IF BSmall(a) /\ BSmall(b) THEN BNat(NGcd(BToNat(a), BToNat(b)))
              ELSE BGcd(b, BMod(a, b))

(* number with the given digit values (most significant first) in a base 2..36 *)
BFromDigits(ds, base) ==
  IF base = 10
  THEN LET n == Len(ds)
           D(k) == IF k >= 1 THEN ds[k] ELSE 0
       IN BTrim(TLCEval([i \in 1..((n + 2) \div 3) |->
                   LET k == n - 3 * (i - 1) IN D(k) + 10 * D(k - 1) + 100 * D(k - 2)]))
  ELSE FoldLeft(LAMBDA acc, d : BAddN(BMulN(acc, base), d), <<>>, ds)

RECURSIVE NDigits(_)
NDigits(n) == IF n < 10 THEN <<n>> ELSE Append(NDigits(n \div 10), n % 10)
(* decimal digits, most significant first; <<0>> for 0 *)
BDigits10(a) ==
  IF a = <<>> THEN <<0>>
  ELSE FoldLeft(LAMBDA acc, x : acc \o <<x \div 100, (x \div 10) % 10, x % 10>>,
                NDigits(a[Len(a)]), Reverse(SubSeq(a, 1, Len(a) - 1)))
RECURSIVE BDigitsB(_, _, _)
BDigitsB(a, base, acc) == IF a = <<>> THEN acc
                          ELSE LET qr == BDivMod(a, BNat(base))
                               IN BDigitsB(qr[1], base, <<BToNat(qr[2])>> \o acc)
(* digits in a base 2..36, most significant first; <<0>> for 0 *)
BDigits(a, base) == IF a = <<>> THEN <<0>>
                    ELSE IF base = 10 THEN BDigits10(a)
                    ELSE BDigitsB(a, base, <<>>)
BLen10(a) == Len(BDigits10(a))
=============================================================================
