------------------------------- MODULE Values -------------------------------
(* Values, the types operations accept, and arithmetic on quantities.       *)
EXTENDS Lexer, Bits, Dates, Trig, Regex

BoolV(b) == [k |-> "bool", b |-> b]
StrV(s)  == [k |-> "str", s |-> s]
ArrV(e)  == [k |-> "arr", e |-> e]
ErrV(p)  == [k |-> "err", p |-> p]
NilV     == [k |-> "nil"]
UnitV(u) == [k |-> "unit", u |-> u]
FnV(b)   == [k |-> "fn", b |-> b]
(* a number known to within tol *)
(* a number known up to tol, or one of several: r and the others            *)
ApxV(r, u, tol) == [k |-> "apx", r |-> r, u |-> u, tol |-> tol, others |-> {}]

(* an operand is a value and what it was read from, if anything *)
NoRef   == [t |-> "none", n |-> <<>>]
LitRef  == [t |-> "i", n |-> <<>>]
VarRef(n) == [t |-> "var", n |-> n]
Op0(v) == [v |-> v, f |-> NoRef]
Op1(v) == [v |-> v, f |-> LitRef]
(* where an error is reported: at a character, anywhere (-1), or at the     *)
(* operation that failed (-2)                                               *)
Bad  == Op0(ErrV(-2))
AnyO == Op0(AnyV)
IsErr(o) == o.v.k = "err"
RECURSIVE DeepAny(_)
DeepAny(v) == v.k = "any" \/ (v.k = "arr" /\ \E i \in 1..Len(v.e) : DeepAny(v.e[i].v))

----------------------------------------------------------------------------
(* a value as a number or as a string: [t |-> "ok", v] "no" "any"           *)
No  == [t |-> "no"]
May == [t |-> "any"]
Ok(v) == [t |-> "ok", v |-> v]
NumOf(v) ==
  CASE v.k = "num"  -> Ok(v)
    [] v.k = "apx"  -> May
    [] v.k = "any"  -> May
    [] v.k = "bool" -> Ok(Plain(IF v.b THEN ROne ELSE RZero))
    [] v.k = "str"  -> LET n == StrNum(v.s)
                       IN IF n[1] = 0 THEN No ELSE IF n[2].k = "any" THEN May ELSE Ok(n[2])
    [] OTHER -> No
StrOf(v) ==
  CASE v.k = "str"  -> Ok(v.s)
    [] v.k = "bool" -> Ok(IF v.b THEN C("True") ELSE C("False"))
    [] v.k = "num"  -> IF ~v.u.x THEN May
                       ELSE LET p == PrintNum(v) IN IF p[1] THEN Ok(p[2]) ELSE May
    [] OTHER -> May
HasUnit(v) == v.k \in {"num", "apx"} /\ v.u.o # "-"
IsNumber(v) == LET n == NumOf(v) IN IF n.t = "ok" THEN "yes" ELSE IF n.t = "no" THEN "no" ELSE IF v.k = "apx" THEN "yes" ELSE "any"

(* the declared types: a main type and what the elements of an array must be *)
T(m) == [m |-> m, s |-> ""]
ArrOf(s) == [m |-> "array", s |-> s]
RECURSIVE Fits(_, _)
Fits(t, o) ==
  LET v == o.v
  IN CASE t.m = "none"    -> "yes"
       [] t.m = "array"   -> IF v.k # "arr" THEN "no"
                             ELSE IF t.s = "" THEN "yes"
                             ELSE LET es == TLCEval([i \in 1..Len(v.e) |-> Fits(T(t.s), v.e[i])])
                                  IN IF \E i \in DOMAIN es : es[i] = "no" THEN "no"
                                     ELSE IF \E i \in DOMAIN es : es[i] = "any" THEN "any" ELSE "yes"
       [] t.m = "variable" -> IF o.f.t = "var" THEN "yes" ELSE "no"
       [] v.k = "any" -> "any"
       [] t.m = "number"  -> IsNumber(v)
       [] t.m = "boolean" -> IF v.k = "bool" THEN "yes" ELSE "no"
       [] t.m = "string"  -> IF v.k \in {"str", "bool", "num", "apx"} THEN "yes" ELSE IF v.k \in {"arr", "err"} THEN "no" ELSE "any"
       [] t.m = "date"    -> IF v.k # "str" THEN "no"
                             ELSE LET d == ParseDate(v.s) IN IF d.t = "date" THEN "yes" ELSE IF d.t = "no" THEN "no" ELSE "any"
       [] t.m = "unit"    -> IF v.k = "unit" THEN "yes" ELSE "no"
       [] t.m = "number with unit" -> IF HasUnit(v) THEN "yes" ELSE "no"
       [] t.m = "unitsystem" -> IF v.k = "str" /\ \E i \in DOMAIN SystemNames : C(SystemNames[i]) = v.s THEN "yes" ELSE "no"
       [] t.m = "numericalrepresentation" -> IF v.k = "str" /\ \E i \in DOMAIN Representations : C(Representations[i]) = v.s THEN "yes" ELSE "no"
       [] t.m = "exception" -> IF v.k = "err" THEN "yes" ELSE "no"
       [] OTHER -> "no"

----------------------------------------------------------------------------
(* units of results                                                         *)
IsTemp(d) == d = DTemp
SIUnit(d) == [o |-> IF IsTemp(d) THEN "x" ELSE "n", f |-> ROne, d |-> d, x |-> FALSE, q |-> "c", pin |-> FALSE]
Same(u, w) == u.f = w.f /\ u.d = w.d /\ u.o = w.o
Fine(r) == DL(r.n) <= 80 /\ DL(r.d) <= 80
NumU(r, u) == NumV(r, NoCast, -1, u)
(* offset of a temperature scale from absolute zero, in kelvin *)
Offset(o) == CASE o = "k" -> RZero [] o = "c" -> Q("273.15") [] o = "f" -> RFrac(45967 * 5, 900)
Abs3 == {"k", "c", "f"}
(* the number of units u2 in r units u1: <<"ok", r>> <<"err">> <<"any">>    *)
Conv(r, u1, u2, rel) ==
  IF u1.o = "-" /\ u2.o = "-" THEN <<"ok", r>>
  ELSE IF u1.o = "-" \/ u2.o = "-" THEN <<"err">>
  ELSE IF u1.d # u2.d THEN <<"err">>
  ELSE IF IsTemp(u1.d) /\ u1.o = u2.o /\ u1.f = u2.f /\ u1.o \in Abs3 THEN <<"ok", r>>
  ELSE IF IsTemp(u1.d) /\ (u1.o = "x" \/ u2.o = "x" \/ ~u1.x \/ ~u2.x) THEN <<"any">>
  ELSE IF IsTemp(u1.d) /\ ~rel /\ u1.o \in Abs3 /\ u2.o \in Abs3
       THEN LET kelvin == RAdd(RMul(r, u1.f), Offset(u1.o))
                t == RDiv(RSub(kelvin, Offset(u2.o)), u2.f)
            IN IF Fine(r) /\ Fine(t) THEN <<"ok", t>> ELSE <<"any">>
  ELSE IF IsTemp(u1.d) /\ ~rel /\ (u1.o \in Abs3 \/ u2.o \in Abs3) THEN <<"any">>
  ELSE IF u1.f = u2.f THEN <<"ok", r>>
  ELSE LET t == RDiv(RMul(r, u1.f), u2.f)
       IN IF Fine(r) /\ Fine(t) /\ DL(r.n) + DL(u1.f.n) + DL(u2.f.d) <= 95 /\ DL(r.d) + DL(u1.f.d) + DL(u2.f.n) <= 95 THEN <<"ok", t>> ELSE <<"any">>

(* a ratio of compound quantities: no dimension, but units whose cancelling  *)
(* the specification does not say may linger in it                          *)
ULoose == [UNone EXCEPT !.x = FALSE, !.q = "c"]
RECURSIVE Loose(_)
Loose(v) == CASE v.k \in {"num", "apx"} -> v.u.o = "-" /\ ~v.u.x
              [] v.k = "arr" -> \E i \in DOMAIN v.e : Loose(v.e[i].v)
              [] OTHER -> FALSE
(* a quantity with the units multiplied (s = 1) or divided (s = -1) *)
QMul(r1, u1, r2, u2, s) ==
  LET a == RMul(r1, u1.f)
      b == RMul(r2, u2.f)
      d == DAdd(u1.d, DMul(u2.d, s))
      r == IF s = 1 THEN RMul(a, b) ELSE RDiv(a, b)
  IN IF ~(Fine(a) /\ Fine(b) /\ Fine(r)) THEN AnyO
     ELSE Op0(NumU(r, IF d # D0 THEN SIUnit(d) ELSE IF u1.q = "s" /\ u2.q = "s" THEN UNone ELSE ULoose))
(* units alone *)
UMulU(u1, u2, s) ==
  LET d == DAdd(u1.d, DMul(u2.d, s))
      f == IF s = 1 THEN RMul(u1.f, u2.f) ELSE RDiv(u1.f, u2.f)
  IN IF d = D0 \/ ~Fine(f) THEN AnyO
     ELSE Op0(UnitV([o |-> IF IsTemp(d) THEN "x" ELSE "n", f |-> f, d |-> d, x |-> TRUE, q |-> "c", pin |-> TRUE]))
(* unit u to the power k # 0 *)
UPow(u, k) == [o |-> IF IsTemp(DMul(u.d, k)) THEN (IF k = 1 THEN u.o ELSE "x") ELSE "n",
               f |-> RPow(u.f, k), d |-> DMul(u.d, k), x |-> u.x, q |-> IF u.q = "s" /\ k > 0 THEN "s" ELSE "c", pin |-> FALSE]
KeepPin(u) == [u EXCEPT !.pin = u.pin /\ u.q = "s"]

QTimes(v1, v2, assign) ==
  IF v1.k = "unit" /\ v2.k = "unit" THEN UMulU(v1.u, v2.u, 1)
  ELSE LET r1 == IF v1.k = "unit" THEN ROne ELSE v1.r
           r2 == IF v2.k = "unit" THEN ROne ELSE v2.r
       IN IF v1.u.o # "-" /\ v2.u.o # "-" THEN QMul(r1, v1.u, r2, v2.u, 1)
          ELSE IF ~FitsMul(r1, r2) THEN AnyO
          ELSE LET u == IF v1.u.o # "-" THEN v1.u ELSE v2.u
               IN IF v1.k = "num" /\ v2.k = "num" /\ (Loose(v1) \/ Loose(v2))
                  THEN Op0(NumU(RMul(RMul(r1, r2), u.f), IF u.o = "-" THEN ULoose ELSE SIUnit(u.d)))
                  ELSE Op0(NumU(RMul(r1, r2), IF assign THEN u ELSE KeepPin(u)))
QOver(v1, v2) ==
  IF v1.k = "unit" /\ v2.k = "unit" THEN UMulU(v1.u, v2.u, -1)
  ELSE LET r1 == IF v1.k = "unit" THEN ROne ELSE v1.r
           r2 == IF v2.k = "unit" THEN ROne ELSE v2.r
       IN IF r2.s = 0 THEN Bad
          ELSE IF v1.u.o # "-" /\ v2.u.o # "-" THEN QMul(r1, v1.u, r2, v2.u, -1)
          ELSE IF ~FitsDiv(r1, r2) THEN AnyO
          ELSE LET r == RDiv(r1, r2)
               IN IF v1.k = "unit" \/ v2.k = "unit"
                  THEN (IF v2.u.o = "-" THEN Op0(NumU(r, KeepPin(v1.u))) ELSE Op0(NumU(r, UPow(v2.u, -1))))
                  ELSE IF Loose(v1) /\ v2.u.o # "-" THEN Op0(NumU(RDiv(r, v2.u.f), SIUnit(DMul(v2.u.d, -1))))
                  ELSE IF Loose(v2) /\ v1.u.o # "-" THEN Op0(NumU(RMul(r, v1.u.f), SIUnit(v1.u.d)))
                  ELSE IF Loose(v1) \/ Loose(v2) THEN Op0(NumU(r, ULoose))
                  ELSE IF v2.u.o = "-" THEN Op0(NumU(r, KeepPin(v1.u)))
                  ELSE Op0(NumU(r, UPow(v2.u, -1)))
(* a plain number to a power that is not an integer                        *)
FracPower(v, e) ==
  IF v.u.o # "-" \/ ~RIsSmallInt(RBig(e.n)) \/ ~RIsSmallInt(RBig(e.d)) THEN AnyO
  ELSE IF v.r.s < 0 \/ (v.r.s = 0 /\ e.s < 0) THEN Bad
  ELSE IF v.r.s = 0 THEN Op0(ApxV(RZero, UNone, RZero))
  ELSE LET p == e.s * BToNat(e.n)
           m == BToNat(e.n)
           q == BToNat(e.d)
       IN IF q > 5 \/ m > 20 \/ m * DL(v.r.n) > MaxDigits \/ m * DL(v.r.d) > MaxDigits THEN AnyO
          ELSE LET r == RootOf(RPow(v.r, p), q) IN Op0(ApxV(r, UNone, RMul(r, RTen(-30))))
QPower(v1, v2) ==
  IF v2.u.o # "-" THEN (IF v1.k = "unit" THEN AnyO
                        ELSE IF ~RIsSmallInt(v2.r) \/ v1.r.s = 0 THEN AnyO ELSE Bad)
  ELSE IF v1.k = "num" /\ ~RIsInt(v2.r) THEN FracPower(v1, v2.r)
  ELSE IF ~RIsSmallInt(v2.r) THEN AnyO
  ELSE LET k == RToInt(v2.r)
           m == IF k < 0 THEN -k ELSE k
       IN IF m > 400 THEN AnyO
          ELSE IF v1.k = "unit" THEN (IF k = 0 \/ m > 20 \/ ~v1.u.x THEN AnyO
                                      ELSE LET u == UPow(v1.u, k)
                                           IN IF ~Fine(u.f) THEN AnyO ELSE Op0(UnitV([u EXCEPT !.pin = (v1.u.q = "s" /\ k > 0)])))
          ELSE IF v1.r.s = 0 /\ k = 0 THEN AnyO
          ELSE IF v1.r.s = 0 /\ k < 0 THEN Bad
          ELSE IF m * DL(v1.r.n) > MaxDigits + m \/ m * DL(v1.r.d) > MaxDigits + m THEN AnyO
          ELSE LET r == RPow(v1.r, k)
               IN IF DL(r.n) > MaxDigits \/ DL(r.d) > MaxDigits THEN AnyO
                  ELSE IF v1.u.o = "-" THEN Op0(NumU(r, IF Loose(v1) THEN ULoose ELSE UNone))
                  ELSE IF k = 0 THEN Op0(Plain(r))
                  ELSE IF m > 20 THEN AnyO
                  ELSE LET u == UPow(v1.u, k) IN IF Fine(u.f) THEN Op0(NumU(r, u)) ELSE AnyO

(* the order of two numbers: -1 0 1, or 9 where it is not specified *)
Order(a, b) ==
  LET c == RCmp(a, b)
  IN IF c = 0 THEN 0
     ELSE IF DL(a.n) + DL(b.d) < 85 /\ DL(a.d) + DL(b.n) < 85 THEN c
     ELSE LET gap == RAbs(RSub(a, b))
              big == RMinOf(RNeg(RAbs(a)), RNeg(RAbs(b)))
          IN IF RLt(RMul(RNeg(big), RTen(-90)), gap) THEN c ELSE 9

----------------------------------------------------------------------------
(* a final answer is shown in a unit the specification does not determine   *)
(* unless it was asked for or is one simple unit                            *)
Shown(u) == u.o = "-" \/ (u.x /\ (u.q = "s" \/ u.pin))
RECURSIVE Final(_)
Final(v) ==
  CASE v.k = "arr" -> [v EXCEPT !.e = TLCEval([i \in 1..Len(v.e) |-> [v.e[i] EXCEPT !.v = Final(v.e[i].v)]])]
    [] v.k = "num" -> IF Shown(v.u) THEN v
                      ELSE IF IsTemp(v.u.d) /\ v.u.o # "x" /\ v.u.o # "k" THEN AnyV
                      ELSE NumV(RMul(v.r, v.u.f), v.c, v.w, SIUnit(v.u.d))
    [] OTHER -> v
=============================================================================
