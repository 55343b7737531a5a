-------------------------------- MODULE Trig --------------------------------
(* Real functions by their series, in fixed point with 24 decimals.  A fixed *)
(* point number is the integer (a Rat with denominator 1) x * 10^24.         *)
EXTENDS Rat

FSCALE == 8                                   \* limbs: 10^24 = BASE^8
FOne == RBig(BTen(24))
DropLimbs(n) == IF Len(n) <= FSCALE THEN <<>> ELSE SubSeq(n, FSCALE + 1, Len(n))
FMul(a, b) == LET p == BMul(a.n, b.n) IN RRaw(a.s * b.s, DropLimbs(p), BOne)
FDiv(a, b) == RRaw(a.s * b.s, BDiv(BMul(a.n, BTen(24)), b.n), BOne)
FDivN(a, k) == RRaw(a.s, BDiv(a.n, BNat(k)), BOne)
FFrom(r) == RRaw(r.s, BDiv(BMul(r.n, BTen(24)), r.d), BOne)
FTo(a) == RNew(a.s, a.n, BTen(24))
FAdd(a, b) == LET t == SAdd(a.s, a.n, b.s, b.n) IN RRaw(t[1], t[2], BOne)
FSub(a, b) == FAdd(a, RNeg(b))
FInt(k) == RMul(RInt(k), FOne)
(* square root by Newton's method on naturals, from above *)
RECURSIVE ISqrtN(_, _)
ISqrtN(n, x) == LET y == BDiv(BAdd(x, BDiv(n, x)), <<2>>) IN IF BLe(x, y) THEN x ELSE ISqrtN(n, y)
(* start just above the root: n < (t+1)*BASE^(len-1), so sqrt(n) <= s*BASE^h *)
RECURSIVE SmallRoot(_, _)
SmallRoot(t, s) == IF s * s >= t THEN s ELSE SmallRoot(t, s + 1)
Root0(n) == LET l == Len(n)
                h == (l - 1) \div 2
                top == IF l % 2 = 1 THEN n[l] + 1 ELSE n[l] * 1000 + n[l - 1] + 1
            IN BMul(BNat(SmallRoot(top, 1)), BTen(3 * h))
ISqrt(n) == IF n = <<>> THEN <<>> ELSE ISqrtN(n, Root0(n))
(* the q-th root, rounded down: Newton from above *)
RECURSIVE IRootN(_, _, _)
IRootN(n, q, x) == LET y == BDiv(BAdd(BMul(BNat(q - 1), x), BDiv(n, BPow(x, q - 1))), BNat(q)) IN IF BLe(x, y) THEN x ELSE IRootN(n, q, y)
IRoot(n, q) == IF n = <<>> THEN <<>> ELSE IRootN(n, q, BPow(<<0, 1>>, (Len(n) + q - 1) \div q))
(* the q-th root of r > 0 to at least 32 significant digits: first a few     *)
RootOf(r, q) == LET z == BLen10(r.d) - BLen10(r.n)     \* the root is about 10^(-z/q)
                    k == 5 + BMax(0, (z \div q) + 1)
                    few == TLCEval(IRoot(BDiv(BMul(r.n, BTen(q * k)), r.d), q))
                    more == TLCEval(IRootN(BDiv(BMul(r.n, BTen(q * (k + 30))), r.d), q, BMul(BAddN(few, 1), BTen(30))))
                IN RNew(1, more, BTen(k + 30))
FSqrt(a) == RRaw(1, ISqrt(BMul(a.n, BTen(24))), BOne)

(* sum of term, term*x/(k), ... until the term vanishes *)
RECURSIVE ExpSum(_, _, _, _)
ExpSum(x, term, k, acc) == IF term.s = 0 THEN acc
                           ELSE LET t == FDivN(FMul(term, x), k) IN ExpSum(x, t, k + 1, FAdd(acc, t))
RECURSIVE SquareN(_, _)
SquareN(a, n) == IF n = 0 THEN a ELSE SquareN(FMul(a, a), n - 1)
FExpPos(x) == SquareN(ExpSum(FDivN(x, 256), FOne, 1, FOne), 8)
FExp(x) == IF x.s < 0 THEN FDiv(FOne, FExpPos(RNeg(x))) ELSE FExpPos(x)

(* sum over k of (+-) z^(2k+1)/(2k+1); g = -1 for arctangent, 1 for artanh *)
RECURSIVE OddSum(_, _, _, _, _)
OddSum(z2, pow, k, g, acc) == IF pow.s = 0 THEN acc
                              ELSE LET p == FMul(pow, z2)
                                       p2 == IF g < 0 THEN RNeg(p) ELSE p
                                   IN OddSum(z2, p2, k + 2, g, FAdd(acc, FDivN(p2, k + 2)))
OddSeries(z, g) == OddSum(FMul(z, z), z, 1, g, z)
FLn2 == RMul(RInt(2), OddSeries(FDivN(FOne, 3), 1))
RECURSIVE LnHalve(_, _), LnDouble(_, _)
LnHalve(x, k) == IF RLe(x, FDivN(FInt(3), 2)) THEN <<x, k>> ELSE LnHalve(FDivN(x, 2), k + 1)
LnDouble(x, k) == IF RLe(FDivN(FInt(3), 4), x) THEN <<x, k>> ELSE LnDouble(FMul(x, FInt(2)), k - 1)
(* natural logarithm of a positive fixed-point number *)
FLn(x) == LET m == IF RLt(x, FOne) THEN LnDouble(x, 0) ELSE LnHalve(x, 0)
              z == FDiv(FSub(m[1], FOne), FAdd(m[1], FOne))
          IN FAdd(RMul(RInt(2), OddSeries(z, 1)), RMul(RInt(m[2]), FLn2))

FPi == RBig(BFromDigits(<<3,1,4,1,5,9,2,6,5,3,5,8,9,7,9,3,2,3,8,4,6,2,6,4,3>>, 10))
RECURSIVE SinSum(_, _, _, _)
SinSum(x2, term, k, acc) == IF term.s = 0 THEN acc
                            ELSE LET t == RNeg(FDivN(FMul(term, x2), k * (k + 1))) IN SinSum(x2, t, k + 2, FAdd(acc, t))
FReduce(x) == LET tau == RMul(RInt(2), FPi)
                  q == RRound(RNew(x.s, x.n, tau.n))
              IN FSub(x, RMul(q, tau))
FSin(x0) == LET x == FReduce(x0) IN SinSum(FMul(x, x), x, 2, x)
FCos(x0) == LET x == FReduce(x0) IN SinSum(FMul(x, x), FOne, 1, FOne)
FHalfPi == FDivN(FPi, 2)
(* arctangent: fold to |x| <= 1, halve the angle twice, then the series *)
FAtanHalf(x) == FDiv(x, FAdd(FOne, FSqrt(FAdd(FOne, FMul(x, x)))))
FAtan1(x) == RMul(RInt(4), OddSeries(FAtanHalf(FAtanHalf(x)), -1))
FAtan(x) == IF x.s = 0 THEN RZero
            ELSE IF RLe(RAbs(x), FOne) THEN FAtan1(x)
            ELSE IF x.s > 0 THEN FSub(FHalfPi, FAtan1(FDiv(FOne, x))) ELSE FSub(RNeg(FHalfPi), FAtan1(FDiv(FOne, x)))
FAsin(x) == IF RAbs(x) = FOne THEN (IF x.s > 0 THEN FHalfPi ELSE RNeg(FHalfPi))
            ELSE FAtan(FDiv(x, FSqrt(FSub(FOne, FMul(x, x)))))
FSinh(x) == FDivN(FSub(FExp(x), FExp(RNeg(x))), 2)
FCosh(x) == FDivN(FAdd(FExp(x), FExp(RNeg(x))), 2)
FAsinhPos(x) == FLn(FAdd(x, FSqrt(FAdd(FMul(x, x), FOne))))

(* <<"ok", approximation>>, <<"dom">> outside the domain, <<"any">> where    *)
(* the statement says nothing                                                *)
Big20 == RInt(20)
(* so close to the end of the domain that the last digit of the argument,    *)
(* which is read in double precision, shows in the twelfth of the result     *)
Steep(r, k) == ~REq(RAbs(r), RInt(1)) /\ RLt(RAbs(RSub(RAbs(r), RInt(1))), RTen(k))
TrigValue(name, r) ==
  LET x == FFrom(r)
      one == RInt(1)
      ok(v) == IF RLt(Big20, RAbs(FTo(v))) THEN <<"any">> ELSE <<"ok", FTo(v)>>
  IN IF RLt(Big20, RAbs(r)) THEN (IF name \in {"asin", "acos", "atanh"} \/ (name = "acosh" /\ r.s < 0) THEN <<"dom">> ELSE <<"any">>)
     ELSE CASE name = "sin" -> ok(FSin(x))
            [] name = "cos" -> ok(FCos(x))
            [] name = "tan" -> (IF RLt(RAbs(FTo(FCos(x))), RFrac(1, 30)) THEN <<"any">> ELSE ok(FDiv(FSin(x), FCos(x))))
            [] name = "asin" -> (IF RLt(one, RAbs(r)) THEN <<"dom">> ELSE IF Steep(r, -7) THEN <<"any">> ELSE ok(FAsin(x)))
            [] name = "acos" -> (IF RLt(one, RAbs(r)) THEN <<"dom">> ELSE IF Steep(r, -7) THEN <<"any">> ELSE ok(FSub(FHalfPi, FAsin(x))))
            [] name = "atan" -> ok(FAtan(x))
            [] name = "sinh" -> ok(FSinh(x))
            [] name = "cosh" -> ok(FCosh(x))
            [] name = "tanh" -> ok(FDiv(FSinh(x), FCosh(x)))
            [] name = "asinh" -> ok(IF x.s >= 0 THEN FAsinhPos(x) ELSE RNeg(FAsinhPos(RNeg(x))))
            [] name = "acosh" -> (IF RLt(r, one) THEN <<"dom">> ELSE IF Steep(r, -7) THEN <<"any">> ELSE ok(FLn(FAdd(x, FSqrt(FSub(FMul(x, x), FOne))))))
            [] name = "atanh" -> (IF RLe(one, RAbs(r)) THEN <<"dom">> ELSE IF Steep(r, -3) THEN <<"any">> ELSE ok(FDivN(FLn(FDiv(FAdd(FOne, x), FSub(FOne, x))), 2)))
TrigNames == {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh"}
ExpValue(r) == IF RLt(RInt(4), r) \/ RLt(r, RInt(-20)) THEN <<"any">> ELSE <<"ok", FTo(FExp(FFrom(r)))>>
(* values so small that 24 decimals lose digits are left out *)
LnValue(r) == IF r.s <= 0 THEN <<"dom">>
              ELSE IF RLt(r, RTen(-8)) \/ RLt(RTen(8), r) THEN <<"any">>
              ELSE <<"ok", FTo(FLn(FFrom(r)))>>
LogValue(r, b) == IF r.s <= 0 \/ b.s <= 0 \/ REq(b, RInt(1)) THEN <<"dom">>
                  ELSE IF RLt(r, RTen(-8)) \/ RLt(RTen(8), r) \/ RLt(b, RTen(-8)) \/ RLt(RTen(8), b) \/ RLt(RAbs(RSub(b, RInt(1))), RFrac(1, 20)) THEN <<"any">>
                  ELSE LET v == FTo(FDiv(FLn(FFrom(r)), FLn(FFrom(b)))) IN IF RLt(Big20, RAbs(v)) THEN <<"any">> ELSE <<"ok", v>>
=============================================================================
