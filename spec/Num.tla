-------------------------------- MODULE Num --------------------------------
(* Number notations: what a literal denotes and how a number is printed.    *)
EXTENDS Codes, Rat

(* notation of a number: t the kind, b the base of a base-N number          *)
Cast(t) == [t |-> t, b |-> 0]
NoCast == Cast("none")

NumV(r, c, w, u) == [k |-> "num", r |-> r, c |-> c, w |-> w, u |-> u]
AnyV == [k |-> "any"]
(* a number without a unit *)
UNone == [o |-> "-", f |-> ROne, d |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>, x |-> TRUE, q |-> "s", pin |-> FALSE]
Plain(r) == NumV(r, NoCast, -1, UNone)
PlainC(r, c) == NumV(r, c, -1, UNone)

(* decimal digits of a natural *)
DL(n) == IF n = <<>> THEN 1
         ELSE LET t == n[Len(n)] IN 3 * Len(n) - (IF t < 10 THEN 2 ELSE IF t < 100 THEN 1 ELSE 0)
(* what the calculator's 100 significant digits hold exactly *)
MaxDigits == 99

----------------------------------------------------------------------------
(* Literals.  ScanNum(t, i) = <<next position, value>>; next position 0 if  *)
(* there is no number at i, -1 if its exponent is out of range.             *)
NoNum == <<0, AnyV>>
Minus(t, i) == IF i <= Len(t) /\ t[i] = 45 THEN i + 1 ELSE i
DigitVals(t, i, j) == TLCEval([k \in 1..(j - i) |-> AlnumVal(t[i + k - 1])])
(* digits t[i..j-1] with an optional fraction t[j+1..k-1] in a base *)
DigitsValue(t, i, j, k, base) ==
  LET whole == DigitVals(t, i, j)
      frac  == IF k > j THEN DigitVals(t, j + 1, k) ELSE <<>>
      nfrac == Len(frac)
      n == BFromDigits(whole \o frac, base)
  IN IF Len(whole) + nfrac > 99 * 4 THEN <<FALSE>>
     ELSE LET r == RNew(1, n, IF base = 10 THEN BTen(nfrac) ELSE BPow(BNat(base), nfrac))
          IN IF DL(r.n) > MaxDigits \/ DL(r.d) > MaxDigits THEN <<FALSE>> ELSE <<TRUE, r>>
Signed(neg, r) == IF neg THEN RNeg(r) ELSE r
(* end of "[.digits]" after position j, by the class's run operator *)
FracEnd(t, j, Run(_, _)) == IF j <= Len(t) /\ t[j] = 46 /\ Run(t, j + 1) > j + 1 THEN Run(t, j + 1) ELSE j

PrefixedNum(t, i, letter, Run(_, _), base, cast) ==
  LET s == Minus(t, i)
  IN IF s + 2 <= Len(t) /\ t[s] = 48 /\ Fold(t[s + 1]) = letter /\ Run(t, s + 2) > s + 2
     THEN LET j == Run(t, s + 2)
              e == FracEnd(t, j, Run)
              v == DigitsValue(t, s + 2, j, e, base)
          IN <<e, IF v[1] THEN NumV(Signed(s > i, v[2]), Cast(cast), IF cast = "bin" THEN j - s - 2 ELSE -1, UNone) ELSE AnyV>>
     ELSE NoNum

ArbNum(t, i) ==
  LET s == Minus(t, i)
      z == RunDigit(t, s)
  IN IF z > s /\ z <= Len(t) /\ Fold(t[z]) = 122 /\ RunAlnum(t, z + 1) > z + 1
     THEN LET j == RunAlnum(t, z + 1)
              e == FracEnd(t, j, RunAlnum)
              bb == BFromDigits(DigitVals(t, s, z), 10)
              base == IF BSmall(bb) THEN BToNat(bb) ELSE 0
              ok == /\ base >= 2 /\ base <= 36
                    /\ \A k \in (z + 1)..(e - 1) : t[k] = 46 \/ AlnumVal(t[k]) < base
              v == DigitsValue(t, z + 1, j, e, base)
          IN IF ~ok THEN NoNum
             ELSE <<e, IF v[1] /\ (t[s] # 48) THEN NumV(Signed(s > i, v[2]), [t |-> "arb", b |-> base], -1, UNone) ELSE AnyV>>
     ELSE NoNum

DecEnd(t, i) == LET s == Minus(t, i)
                    j == RunDigit(t, s)
                IN IF j > s THEN FracEnd(t, j, RunDigit) ELSE 0
DecValue(t, i, e) == LET s == Minus(t, i)
                         j == RunDigit(t, s)
                         v == DigitsValue(t, s, j, e, 10)
                     IN IF v[1] THEN <<TRUE, Signed(s > i, v[2])>> ELSE v
ExpNum(t, i) ==
  LET m == DecEnd(t, i)
      x == m + 1
      s == Minus(t, x)
      j == RunDigit(t, s)
  IN IF m > 0 /\ m <= Len(t) /\ Fold(t[m]) = 101 /\ j > s
     THEN LET v == DecValue(t, i, m)
              b == BFromDigits(DigitVals(t, s, j), 10)
              k == IF BSmall(b) THEN BToNat(b) ELSE 999999999
              r == IF s > x THEN RDiv(v[2], RTen(k)) ELSE RMul(v[2], RTen(k))
          IN IF k > 2000000 THEN <<-1, AnyV>>
             ELSE IF k > 90 \/ ~v[1] THEN <<j, AnyV>>
             ELSE IF DL(r.n) > MaxDigits \/ DL(r.d) > MaxDigits THEN <<j, AnyV>>
             ELSE <<j, PlainC(r, Cast("exp"))>>
     ELSE NoNum
PctNum(t, i) ==
  LET m == DecEnd(t, i)
  IN IF m > 0 /\ m <= Len(t) /\ t[m] = 37
     THEN LET v == DecValue(t, i, m)
          IN <<m + 1, IF v[1] THEN PlainC(RDiv(v[2], RInt(100)), Cast("pct")) ELSE AnyV>>
     ELSE NoNum
DecNum(t, i) ==
  LET m == DecEnd(t, i)
  IN IF m > 0 THEN LET v == DecValue(t, i, m) IN <<m, IF v[1] THEN Plain(v[2]) ELSE AnyV>> ELSE NoNum

ScanNum(t, i) ==
  IF ~(Digit(t[i]) \/ t[i] = 45) THEN NoNum
  ELSE LET b == PrefixedNum(t, i, 98, RunBin, 2, "bin")
       IN IF b[1] # 0 THEN b
  ELSE LET o == PrefixedNum(t, i, 111, RunOct, 8, "oct")
       IN IF o[1] # 0 THEN o
  ELSE LET x == PrefixedNum(t, i, 120, RunHex, 16, "hex")
       IN IF x[1] # 0 THEN x
  ELSE LET z == ArbNum(t, i)
       IN IF z[1] # 0 THEN z
  ELSE LET e == ExpNum(t, i)
       IN IF e[1] # 0 THEN e
  ELSE LET p == PctNum(t, i)
       IN IF p[1] # 0 THEN p
  ELSE DecNum(t, i)

(* a string that is a number when a number is wanted *)
StrNum(s) == IF s = <<>> THEN NoNum
             ELSE LET n == ScanNum(s, 1)
                  IN IF n[1] = Len(s) + 1
                     THEN IF n[2].k = "num" /\ n[2].c.t = "none" THEN <<n[1], PlainC(n[2].r, Cast("dec"))>> ELSE n
                     ELSE IF n[1] = -1 THEN <<1, AnyV>> ELSE NoNum

----------------------------------------------------------------------------
(* Printing: <<TRUE, text>>, or <<FALSE>> where it is not specified         *)
AlnumCode(d) == IF d < 10 THEN 48 + d ELSE 55 + d
DigitText(ds) == TLCEval([i \in 1..Len(ds) |-> AlnumCode(ds[i])])
StripZeros(ds) == StripR(ds, <<0>>)
PadTo(ds, n) == IF Len(ds) >= n THEN ds ELSE TLCEval([i \in 1..(n - Len(ds)) |-> 0]) \o ds
SignText(s) == IF s < 0 THEN <<45>> ELSE <<>>
Places == 30

(* whole and fraction digits from the digits of value * base^30 *)
WithPoint(ds, places) ==
  LET p == PadTo(ds, places + 1)
      w == SubSeq(p, 1, Len(p) - places)
      f == StripZeros(SubSeq(p, Len(p) - places + 1, Len(p)))
  IN <<w, f>>
PointText(wf) == DigitText(wf[1]) \o (IF wf[2] = <<>> THEN <<>> ELSE <<46>> \o DigitText(wf[2]))

DecText(r) ==
  IF r.s = 0 THEN <<TRUE, <<48>>>>
  ELSE IF RIsInt(r) THEN (IF DL(RTrunc(r).n) > MaxDigits THEN <<FALSE>>
                          ELSE <<TRUE, SignText(r.s) \o DigitText(BDigits10(RTrunc(r).n))>>)
  ELSE IF DL(r.n) - DL(r.d) > 66 THEN <<FALSE>>
  ELSE LET q == RRound(RMul(RAbs(r), RTen(Places)))
       IN IF q.s = 0 THEN <<TRUE, <<48>>>>
          ELSE <<TRUE, SignText(r.s) \o PointText(WithPoint(BDigits10(q.n), Places))>>

(* exact expansion in a base, if it has at most 30 places *)
BaseText(r, base, width, prefix) ==
  IF r.s = 0 THEN <<TRUE, prefix \o Zfill(<<48>>, width)>>
  ELSE LET scaled == RMul(RAbs(r), RBig(BPow(BNat(base), Places)))
       IN IF ~RIsInt(scaled) \/ DL(r.n) > MaxDigits THEN <<FALSE>>
          ELSE LET whole == RIsInt(r)
                   wf == IF whole THEN <<BDigits(RTrunc(r).n, base), <<>>>>
                         ELSE WithPoint(BDigits(RTrunc(scaled).n, base), Places)
                   w2 == <<PadTo(wf[1], width), wf[2]>>
               IN <<TRUE, SignText(r.s) \o prefix \o PointText(w2)>>

ExpText(r) ==
  IF r.s = 0 THEN <<TRUE, C("0E0")>>
  ELSE LET e0 == DL(r.n) - DL(r.d)
           e1 == IF RLt(RAbs(r), RTen(e0)) THEN e0 - 1 ELSE e0
           m0 == RRound(RMul(RAbs(r), RTen(Places - e1)))
           up == m0.n = BTen(Places + 1)
           e  == IF up THEN e1 + 1 ELSE e1
           m  == IF up THEN BTen(Places) ELSE m0.n
       IN <<TRUE, SignText(r.s) \o PointText(WithPoint(BDigits10(m), Places)) \o <<69>>
                  \o (IF e < 0 THEN <<45>> \o NatCodes(-e) ELSE NatCodes(e))>>

PrintR(r, c, w) ==
  CASE c.t \in {"none", "dec"} -> DecText(r)
    [] c.t = "bin" -> BaseText(r, 2, w, C("0b"))
    [] c.t = "oct" -> BaseText(r, 8, -1, C("0o"))
    [] c.t = "hex" -> BaseText(r, 16, -1, C("0x"))
    [] c.t = "arb" -> IF c.b = 10 THEN LET d == DecText(RAbs(r)) IN (IF d[1] THEN <<TRUE, SignText(IF d[2] = <<48>> THEN 0 ELSE r.s) \o C("10z") \o d[2]>> ELSE d)
                      ELSE BaseText(r, c.b, -1, NatCodes(c.b) \o <<122>>)
    [] c.t = "pct" -> LET d == DecText(RMul(r, RInt(100))) IN IF d[1] THEN <<TRUE, d[2] \o <<37>>>> ELSE d
    [] c.t = "exp" -> ExpText(r)
PrintNum(v) == PrintR(v.r, v.c, v.w)
(* notation's own base, for rounding *)
CastBase(c) == CASE c.t = "bin" -> 2 [] c.t = "oct" -> 8 [] c.t = "hex" -> 16 [] c.t = "arb" -> c.b [] OTHER -> 10

----------------------------------------------------------------------------
(* Exact arithmetic within the precision of the calculator; <<FALSE>> where *)
(* an intermediate result may not fit.                                      *)
FitsAdd(a, b) == /\ DL(a.n) + DL(a.d) + DL(b.d) <= MaxDigits
                 /\ DL(b.n) + DL(b.d) + DL(a.d) <= MaxDigits
FitsMul(a, b) == DL(a.n) + DL(b.n) <= MaxDigits /\ DL(a.d) + DL(b.d) <= MaxDigits
FitsDiv(a, b) == DL(a.n) + DL(b.d) <= MaxDigits /\ DL(a.d) + DL(b.n) <= MaxDigits
ModR(a, b) == LET q == RTrunc(RDiv(a, b)) IN RSub(a, RMul(q, b))
=============================================================================
