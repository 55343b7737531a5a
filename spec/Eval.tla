-------------------------------- MODULE Eval --------------------------------
(* Evaluation: operations applied to operands, and statements to a state.   *)
(*                                                                          *)
(* A state S is [v |-> variables, any |-> TRUE once the outcome is no       *)
(* longer determined by the specification].  Evaluating gives <<S', operand>> *)
EXTENDS Format

Sg(min, max, un, t) == [min |-> min, max |-> max, un |-> un, t |-> t, norm |-> TRUE, ain |-> TRUE, ares |-> TRUE, exc |-> FALSE, dims |-> <<>>]
Num1 == <<T("number")>>
NumUnit == <<T("number"), T("unit")>>
NWU == <<T("number with unit")>>
Str1 == <<T("string")>>
Any1 == <<T("none")>>
Var1 == <<T("variable")>>
Date1 == <<T("date")>>
ArrN == <<ArrOf("number")>>
(* n parameters all of types t (un: as is any further one) *)
All(n, t) == Sg(n, n, TRUE, <<t>>)
Fun(min, max, t) == Sg(min, max, TRUE, <<t>>)
Each(t) == Sg(Len(t), Len(t), FALSE, t)
Between(min, t) == Sg(min, Len(t), FALSE, t)
NoNorm(s) == [s EXCEPT !.norm = FALSE]
OwnCast(s) == [s EXCEPT !.ares = FALSE]
TimeDim == [t |-> "d", d |-> DTime]
NoDim == [t |-> "none", d |-> D0]
Timed(s) == [s EXCEPT !.dims = <<NoDim, TimeDim>>]

StringOps == {"+$", "<$", ">$", "<=$", ">=$", "==$", "!=$", "<~", ">~", "<=~", ">=~", "==~", "!=~"}
CompareOps == {"<", ">", "<=", ">=", "==", "!="}
BitOps == {"&", "|", "^^", "<<", ">>"}
CompoundOps == {"+=", "-=", "*=", "/=", "^=", "%=", "\\="}
BaseOfCompound(n) == CASE n = "+=" -> "+" [] n = "-=" -> "-" [] n = "*=" -> "*" [] n = "/=" -> "/"
                       [] n = "^=" -> "^" [] n = "%=" -> "%" [] n = "\\=" -> "\\"
SigTable == TLCEval([n \in OpNames \cup {FuncName[k] : k \in FuncNames} |->
  CASE n = "^" -> NoNorm(Each(<<NumUnit, Num1>>))
    [] n \in {"*", "/"} -> Each(<<NumUnit, NumUnit>>)
    [] n = "IMPLICIT_MULTIPLY" -> All(2, Num1)
    [] n = "UNIT_ASSIGNMENT" -> NoNorm(Each(<<Num1, <<T("unit")>>>>))
    [] n \in {"UNIT_MULTIPLY", "UNIT_DIVIDE"} -> NoNorm(All(2, <<T("unit")>>))
    [] n \in {"+", "-", "%", "\\"} \cup CompareOps \cup BitOps -> All(2, Num1)
    [] n = "~" -> [All(1, Num1) EXCEPT !.ain = FALSE]
    [] n = "not" -> All(1, <<T("boolean")>>)
    [] n \in {"and", "or", "xor"} -> [Each(<<<<T("boolean")>>, <<T("boolean"), T("exception")>>>>) EXCEPT !.exc = TRUE]
    [] n = "then" -> [NoNorm(Each(<<<<T("boolean")>>, Any1, Any1>>)) EXCEPT !.exc = TRUE]
    [] n \in {"=", "||="} -> NoNorm(Each(<<Var1, <<T("none"), T("array")>>>>))
    [] n \in {"++", "--"} -> Each(<<Var1>>)
    [] n \in CompoundOps -> OwnCast(NoNorm(Each(<<Var1, <<T("number"), T("array")>>>>)))
    [] n = "to" -> NoNorm(Each(<<<<T("number with unit"), T("unit")>>, <<T("unit")>>>>))
    [] n = "as" -> OwnCast(Each(<<Num1, <<T("numericalrepresentation")>>>>))
    [] n \in StringOps \cup {"=~", "!~"} -> All(2, Str1)
    [] n = "*$" -> Each(<<Str1, Num1>>)
    [] n \in {"+%", "-%", "dateadd", "datesubtract"} -> Timed(NoNorm(Each(<<Date1, Num1>>)))
    [] n \in {"abs", "fact", "exp"} \cup TrigNames -> All(1, Num1)
    [] n \in {"floor", "ceil", "round"} -> NoNorm(Fun(1, 2, Num1))
    [] n = "log" -> Fun(1, 2, Num1)
    [] n \in {"gcd", "lcm"} -> All(2, Num1)
    [] n \in {"sum", "min", "max", "mean", "median", "mode", "stdev", "sort"} -> All(1, ArrN)
    [] n = "concat" -> All(2, <<T("array")>>)
    [] n = "element" -> Each(<<<<T("array")>>, Num1>>)
    [] n = "filter" -> Each(<<<<T("array")>>, <<ArrOf("boolean")>>>>)
    [] n \in {"count", "reverse"} -> All(1, <<T("array")>>)
    [] n \in {"length", "lower", "upper"} -> All(1, Str1)
    [] n \in {"lstrip", "rstrip", "strip", "find", "split", "regexsplit", "regexcount"} -> All(2, Str1)
    [] n = "replace" -> All(3, Str1)
    [] n = "regexget" -> Between(2, <<Str1, Str1, Num1>>)
    [] n = "regexsub" -> Between(3, <<Str1, Str1, Str1, Num1>>)
    [] n = "substr" -> Between(2, <<Str1, Num1, Num1>>)
    [] n = "join" -> Between(1, <<<<ArrOf("string")>>, Str1>>)
    [] n = "scientific" -> OwnCast(NoNorm(Fun(1, 2, Num1)))
    [] n \in {"hex", "oct", "bin", "dec"} -> OwnCast(All(1, Num1))
    [] n = "base" -> OwnCast(All(2, Num1))
    [] n \in {"reset", "now"} -> Sg(0, 0, FALSE, <<>>)
    [] n = "delete" -> All(1, Var1)
    [] n = "datedifference" -> Between(2, <<Date1, Date1, <<T("unit")>>>>)
    [] n = "dateformat" -> NoNorm(All(1, Date1))
    [] n = "compact" -> Each(<<NWU>>)
    [] n = "format" -> NoNorm(Between(1, <<NWU, <<T("unitsystem")>>>>)) ])

TypesAt(sig, i) == IF i <= Len(sig.t) THEN sig.t[i] ELSE IF sig.un THEN sig.t[1] ELSE <<>>
HasType(ts, m) == \E k \in DOMAIN ts : ts[k].m = m
CanBeArray(sig, i) == HasType(TypesAt(sig, i), "array")
CanBeVar(sig, i) == HasType(TypesAt(sig, i), "variable")
MustBeArray(sig, i) == LET ts == TypesAt(sig, i) IN Len(ts) = 1 /\ ts[1].m = "array"
MustBeNumbers(sig, i) == MustBeArray(sig, i) /\ TypesAt(sig, i)[1].s = "number"
CanBeNumber(sig, i) == HasType(TypesAt(sig, i), "number")
(* is operand o acceptable as parameter i *)
Accepts(sig, i, o) ==
  LET ts == TypesAt(sig, i)
      fs == TLCEval([k \in DOMAIN ts |-> Fits(ts[k], o)])
  IN IF ts = <<>> THEN "yes"
     ELSE IF \E k \in DOMAIN fs : fs[k] = "yes" THEN "yes"
     ELSE IF \E k \in DOMAIN fs : fs[k] = "any" THEN "any" ELSE "no"
DimOk(sig, i, o) == \/ i > Len(sig.dims) \/ sig.dims[i].t = "none"
                    \/ sig.dims[i].t = "d" /\ HasUnit(o.v) /\ o.v.u.d = sig.dims[i].d

SetVar(S, n, v) == [S EXCEPT !.v = TLCEval([m \in DOMAIN S.v \cup {n} |-> IF m = n THEN v ELSE S.v[m]])]
DelVar(S, n) == [S EXCEPT !.v = TLCEval([m \in DOMAIN S.v \ {n} |-> S.v[m]])]
Unknown(S) == <<[S EXCEPT !.any = TRUE], AnyO>>
Same2(S, o) == IF DeepAny(o.v) THEN <<[S EXCEPT !.any = TRUE], o>> ELSE <<S, o>>
Stored(v) == IF v.k = "err" /\ v.p # -1 THEN ErrV(-1) ELSE v
EmptyVars == [n \in {} |-> NilV]

----------------------------------------------------------------------------
(* declared inputs of an external function *)
DimTable == TLCEval(
  LET D(n, d) == <<C(n), d>>
      ps == {D("distance", DLen), D("time", DTime), D("absorbeddose", DDose), D("acceleration", DAccel), D("angle", DAng),
             D("area", DArea), D("electriccurrent", DCur), D("mass", DMass), D("capacitance", DFarad), D("substance", DSub),
             D("catalyticactivity", DAdd(DSub, DFreq)), D("data", DData), D("electricalconductance", DSiemens),
             D("electricalpotential", DVolt), D("electriccharge", DCharge), D("energy", DEnergy), D("equivalentdose", DDose),
             D("force", DForce), D("frequency", DFreq), D("luminousintensity", DLum), D("solidangle", DSol),
             D("illuminance", DAdd(DAdd(DLum, DSol), DMul(DLen, -2))), D("inductance", DHenry), D("luminousflux", DAdd(DLum, DSol)),
             D("magneticflux", DAdd(DVolt, DTime)), D("magneticfluxdensity", DAdd(DAdd(DVolt, DTime), DMul(DLen, -2))),
             D("power", DPower), D("pressure", DPress), D("radioactivity", DFreq), D("resistance", DOhm), D("temperature", DTemp),
             D("velocity", DVel), D("volume", DVol)}
  IN [k \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = k)[2]])
MainTypes == {"number", "boolean", "string", "array", "date", "variable", "unit", "exception", "unitsystem", "numericalrepresentation"}
TypeTable == TLCEval(
  LET ps == {<<C(m), T(m)>> : m \in MainTypes} \cup {<<C("array") \o <<91>> \o C(m) \o <<93>>, ArrOf(m)>> : m \in MainTypes \ {"array"}}
  IN [k \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = k)[2]])
RECURSIVE Words(_, _, _)
Words(t, i, cur) ==
  LET done == IF cur = <<>> THEN <<>> ELSE <<cur>>
  IN IF i > Len(t) THEN done
     ELSE IF Space(t[i]) THEN done \o Words(t, i + 1, <<>>)
     ELSE Words(t, i + 1, Append(cur, t[i]))
IntAt(t) == LET s == IF t # <<>> /\ t[1] = 45 THEN 2 ELSE 1
            IN IF s <= Len(t) /\ Len(t) < 6 /\ \A k \in s..Len(t) : Digit(t[k])
               THEN <<TRUE, (IF s = 2 THEN -1 ELSE 1) * BToNat(BFromDigits([k \in 1..(Len(t) + 1 - s) |-> t[s + k - 1] - 48], 10))>>
               ELSE <<FALSE>>
(* one factor of the dimensions: <<"ok", vector>> <<"unknown">> <<"bad">>   *)
DimFactor(w) ==
  LET ps == SplitOn(w, <<94>>)
      n == IF Len(ps) = 1 THEN <<TRUE, 1>> ELSE IF Len(ps) = 2 THEN IntAt(ps[2]) ELSE <<FALSE>>
  IN IF ~n[1] THEN <<"bad">>
     ELSE IF ps[1] \notin DOMAIN DimTable THEN <<"unknown">>
     ELSE <<"ok", DMul(DimTable[ps[1]], n[2])>>
(* [ok, sig] of a file, by its first line *)
NoSig == NoNorm([Sg(0, 99, FALSE, <<>>) EXCEPT !.ain = FALSE, !.ares = FALSE])
Header(text, g) ==
  LET line == SubSeq(text, 1, FindCode(text, 1, NL) - 1)
      head == <<g.cm>> \o C("INPUT")
      h == Len(head)
      ws == IF StartsAt(line, 1, head) /\ Len(line) > h /\ Space(line[h + 1]) THEN Words(line, h + 1, <<>>) ELSE <<>>
      One(w) == LET ps == SplitOn(w, <<58>>)
                    fs == IF Len(ps) = 2 THEN LET ds == SplitOn(ps[2], <<44>>) IN TLCEval([k \in DOMAIN ds |-> DimFactor(ds[k])]) ELSE <<>>
                    ty == IF ps[1] \in DOMAIN TypeTable THEN TypeTable[ps[1]] ELSE T("?")
                IN IF Len(ps) > 2 \/ (\E k \in DOMAIN fs : fs[k][1] = "bad") THEN [bad |-> TRUE]
                   ELSE [bad |-> FALSE, ty |-> ty,
                         dim |-> IF Len(ps) = 1 THEN NoDim
                                 ELSE IF \E k \in DOMAIN fs : fs[k][1] = "unknown" THEN [t |-> "bad", d |-> D0]
                                 ELSE [t |-> "d", d |-> FoldLeft(LAMBDA acc, f : DAdd(acc, f[2]), D0, fs)]]
      os == TLCEval([k \in DOMAIN ws |-> One(ws[k])])
  IN IF ws = <<>> THEN [ok |-> TRUE, sig |-> NoSig]
     ELSE IF \E k \in DOMAIN os : os[k].bad THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, sig |-> [NoSig EXCEPT !.t = TLCEval([k \in DOMAIN os |-> <<os[k].ty>>]),
                                              !.dims = TLCEval([k \in DOMAIN os |-> os[k].dim])]]

----------------------------------------------------------------------------
(* elementary operations on converted values *)
NumR(r, u) == Op0(NumU(r, u))
Cmp3(n, c) == CASE n = "<" -> c < 0 [] n = ">" -> c > 0 [] n = "<=" -> c <= 0 [] n = ">=" -> c >= 0 [] n = "==" -> c = 0 [] n = "!=" -> c # 0
StripOp(n) == CASE n \in {"<$", "<~"} -> "<" [] n \in {">$", ">~"} -> ">" [] n \in {"<=$", "<=~"} -> "<="
                [] n \in {">=$", ">=~"} -> ">=" [] n \in {"==$", "==~"} -> "==" [] n \in {"!=$", "!=~"} -> "!="
IntNum(v) == RIsInt(v.r)
NumOk(r, u) == IF DL(r.n) > MaxDigits \/ DL(r.d) > MaxDigits THEN AnyO ELSE NumR(r, u)

(* + - % \ and comparisons: a and b are in the same unit, u of the result   *)
Arith(n, a, b, u) ==
  CASE n = "+" -> IF FitsAdd(a, b) THEN NumOk(RAdd(a, b), u) ELSE AnyO
    [] n = "-" -> IF FitsAdd(a, b) THEN NumOk(RSub(a, b), u) ELSE AnyO
    [] n = "%" -> IF b.s = 0 THEN Bad ELSE IF ~FitsAdd(a, b) THEN AnyO ELSE NumOk(ModR(a, b), u)
    [] n = "\\" -> IF b.s = 0 THEN Bad
                   ELSE IF DL(a.n) + DL(b.d) + DL(a.d) + DL(b.n) > MaxDigits THEN AnyO
                   ELSE NumOk(RFloor(RDiv(a, b)), UNone)
    [] n \in CompareOps -> LET c == Order(a, b) IN IF c = 9 THEN AnyO ELSE Op0(BoolV(Cmp3(n, c)))

(* written width of a binary number; numbers in another notation have none *)
Width(v) == IF v.w >= 0 THEN <<TRUE, v.w>>
            ELSE IF v.c.t # "bin" THEN <<TRUE, -1>>
            ELSE LET p == PrintNum(v)
                     t == IF p[1] THEN p[2] ELSE <<>>
                     k == IF t # <<>> /\ t[1] = 45 THEN 4 ELSE 3
                 IN IF ~p[1] THEN <<FALSE, -1>> ELSE <<TRUE, FindCode(t, k, 46) - k>>
BitResult(r, vs) ==
  LET ws == TLCEval([i \in DOMAIN vs |-> Width(vs[i])])
      top == FoldLeft(LAMBDA acc, i : IF ws[i][2] > acc THEN ws[i][2] ELSE acc, -1, [i \in 1..Len(vs) |-> i])
  IN IF \E i \in DOMAIN ws : ~ws[i][1] THEN AnyO
     ELSE IF DL(r.n) > MaxDigits THEN AnyO
     ELSE Op0([NumU(r, UNone) EXCEPT !.w = top])
Bitwise2(n, v1, v2) ==
  IF n \in {"<<", ">>"}
  THEN (IF v2.u.o # "-" \/ v1.u.o # "-" THEN AnyO
        ELSE IF v2.r.s < 0 \/ ~IntNum(v2) THEN Bad
        ELSE IF ~IntNum(v1) THEN AnyO
        ELSE IF ~RIsSmallInt(v2.r) \/ RToInt(v2.r) > 400 THEN AnyO
        ELSE BitResult(IF n = "<<" THEN ShiftL(v1.r, RToInt(v2.r)) ELSE ShiftR(v1.r, RToInt(v2.r)), <<v1, v2>>))
  ELSE IF v1.u.o # "-" \/ v2.u.o # "-" \/ ~IntNum(v1) \/ ~IntNum(v2) THEN AnyO
  ELSE BitResult(CASE n = "&" -> BitAnd(v1.r, v2.r) [] n = "|" -> BitOr(v1.r, v2.r) [] n = "^^" -> BitXor(v1.r, v2.r), <<v1, v2>>)
BitNot(v) ==
  IF v.u.o # "-" THEN AnyO
  ELSE IF v.r.s < 0 \/ ~IntNum(v) THEN Bad
  ELSE LET w == IF v.w >= 0 THEN v.w ELSE BitLen(v.r.n)
           r == Flip(v.r, w)
           o == BitResult(r, <<v>>)
       IN IF w > 320 \/ o.v.k # "num" THEN AnyO
          ELSE Op0([o.v EXCEPT !.c = v.c])

(* round, floor and ceil to a number of places in the number's own notation *)
Rounded(n, v, places) ==
  LET off == IF v.c.t = "pct" THEN 2 ELSE 0
      k == RBig(BPow(BNat(CastBase(v.c)), places + off))
      s == RMul(v.r, k)
      t == CASE n = "floor" -> RFloor(s) [] n = "ceil" -> RCeil(s) [] n = "round" -> RRound(s)
      r == RDiv(t, k)
  IN IF ~v.u.x THEN AnyO
     ELSE IF DL(s.n) > MaxDigits \/ DL(s.d) > MaxDigits \/ DL(s.n) + DL(s.d) > 90 \/ DL(k.n) > 60 THEN AnyO
     ELSE Op0([NumU(r, v.u) EXCEPT !.c = v.c])

----------------------------------------------------------------------------
(* arrays of numbers: the elements as numbers in the first one's unit       *)
(* [t |-> "ok", ns, cast] "err" "any"                                       *)
NumsOf(e) ==
  LET ns == TLCEval([i \in DOMAIN e |-> NumOf(e[i].v)])
      u1 == ns[1].v.u
      some == \E i \in DOMAIN ns : ns[i].v.u.o # "-"
      cs == TLCEval([i \in DOMAIN ns |-> IF Len(ns) > 1 /\ some THEN Conv(ns[i].v.r, ns[i].v.u, u1, FALSE) ELSE <<"ok", ns[i].v.r>>])
      cast == FoldLeft(LAMBDA acc, i : IF acc.t = "none" THEN ns[i].v.c ELSE acc, NoCast, [i \in 1..Len(e) |-> i])
  IN IF e = <<>> THEN [t |-> "ok", ns |-> <<>>, u |-> UNone, cast |-> NoCast]
     ELSE IF \E i \in DOMAIN ns : ns[i].t # "ok" THEN [t |-> "any"]
     ELSE IF \E i \in DOMAIN cs : cs[i][1] = "err" THEN [t |-> "err"]
     ELSE IF \E i \in DOMAIN cs : cs[i][1] = "any" THEN [t |-> "any"]
     ELSE [t |-> "ok", ns |-> TLCEval([i \in DOMAIN cs |-> cs[i][2]]), u |-> u1, cast |-> cast]
RECURSIVE SumFrom(_, _, _)
SumFrom(ns, i, acc) == IF i > Len(ns) THEN <<TRUE, acc>>
                       ELSE IF ~FitsAdd(acc, ns[i]) THEN <<FALSE>>
                       ELSE SumFrom(ns, i + 1, RAdd(acc, ns[i]))
TooClose(ns) == \E i, j \in DOMAIN ns : i < j /\ Order(ns[i], ns[j]) = 9
(* positions in ascending order, equal ones in their order *)
RECURSIVE InsertIx(_, _, _)
InsertIx(ns, sorted, i) ==
  IF sorted = <<>> THEN <<i>>
  ELSE IF RLt(ns[i], ns[Head(sorted)]) THEN <<i>> \o sorted
  ELSE <<Head(sorted)>> \o InsertIx(ns, Tail(sorted), i)
SortedIx(ns) == FoldLeft(LAMBDA acc, i : InsertIx(ns, acc, i), <<>>, [i \in 1..Len(ns) |-> i])
Terminates(r) == LET RECURSIVE Strip(_, _)
                     Strip(d, p) == IF BMod(d, BNat(p)) = <<>> THEN Strip(BDiv(d, BNat(p)), p) ELSE d
                 IN r.s = 0 \/ r.d = <<1>> \/ Strip(Strip(r.d, 2), 5) = <<1>>
Approx(r, u, ns) ==
  LET big == FoldLeft(LAMBDA acc, x : IF RLt(acc, RAbs(x)) THEN RAbs(x) ELSE acc, RAbs(r), ns)
      exact == Terminates(r) /\ DL(r.n) + DL(r.d) <= 80 /\ \A i \in DOMAIN ns : Terminates(ns[i]) /\ DL(ns[i].n) + DL(ns[i].d) <= 80
  IN IF exact THEN NumR(r, u) ELSE Op0(ApxV(r, u, RMul(big, RTen(-90))))
Statistic(n, e) ==
  LET a == NumsOf(e)
  IN IF a.t = "err" THEN Bad
     ELSE IF a.t = "any" THEN AnyO
     ELSE LET ns == a.ns
              k == Len(ns)
              ix == IF k = 0 \/ TooClose(ns) THEN <<>> ELSE SortedIx(ns)
              pick(i) == IF \E j \in DOMAIN ns : REq(ns[i], ns[j]) /\ e[j].v # e[i].v
                         THEN (IF \E j \in DOMAIN ns : REq(ns[i], ns[j]) /\ e[j].v.k # e[i].v.k THEN AnyO ELSE AnyO)
                         ELSE e[i]
              mark(o) == IF o.v.k = "num" /\ a.cast.t # "none" THEN [o EXCEPT !.v.c = a.cast] ELSE o
          IN CASE n = "sum" -> LET s == SumFrom(ns, 1, RZero) IN IF s[1] THEN mark(NumR(s[2], a.u)) ELSE AnyO
               [] k = 0 /\ n # "sort" -> Bad
               [] n = "mean" -> LET s == SumFrom(ns, 1, RZero)
                                IN IF ~s[1] THEN AnyO ELSE mark(Approx(RDiv(s[2], RInt(k)), a.u, ns))
               [] n = "stdev" -> IF k < 2 THEN Bad
                                ELSE LET s == SumFrom(ns, 1, RZero)
                                         m == RDiv(s[2], RInt(k))
                                         v == RDiv(FoldLeft(LAMBDA acc, x : RAdd(acc, RMul(RSub(x, m), RSub(x, m))), RZero, ns), RInt(k - 1))
                                     IN IF ~s[1] \/ DL(m.n) + DL(m.d) > 60 \/ \E i \in DOMAIN ns : DL(ns[i].d) + DL(ns[i].n) > 40 THEN AnyO
                                        ELSE IF v.s = 0 THEN Op0(ApxV(RZero, a.u, RZero))
                                        ELSE LET r == RootOf(v, 2) IN Op0(ApxV(r, a.u, RMul(r, RTen(-20))))
               [] n = "sort" /\ k = 0 -> Op0(ArrV(<<>>))
               [] ix = <<>> -> AnyO
               [] n = "sort" -> IF \E i, j \in DOMAIN ns : i < j /\ REq(ns[i], ns[j]) /\ e[i].v # e[j].v /\ FALSE THEN AnyO
                                ELSE Op0(ArrV(TLCEval([i \in 1..k |-> e[ix[i]]])))
               [] n = "min" -> mark(pick(ix[1]))
               [] n = "max" -> mark(pick(ix[k]))
               [] n = "median" -> LET m == IF k % 2 = 1 THEN ns[ix[(k + 1) \div 2]]
                                           ELSE RDiv(RAdd(ns[ix[k \div 2]], ns[ix[k \div 2 + 1]]), RInt(2))
                                  IN mark(Approx(m, a.u, ns))
               [] n = "mode" -> LET cnt == TLCEval([i \in 1..k |-> Cardinality({j \in 1..k : REq(ns[i], ns[j])})])
                                    best == {i \in 1..k : \A j \in 1..k : cnt[j] <= cnt[i]}
                                    i0 == CHOOSE i \in best : TRUE
                                IN IF \E i \in best : ~REq(ns[i], ns[i0])
                                   THEN (LET o == Op0(ApxV(ns[i0], a.u, RZero)) IN IF \E i \in best : Approx(ns[i], a.u, ns).v.k # "num" THEN AnyO ELSE [o EXCEPT !.v.others = {ns[i] : i \in best}])
                                   ELSE mark(Approx(ns[i0], a.u, ns))

----------------------------------------------------------------------------
(* strings *)
SmallInt(v, lo, hi) == IF ~IntNum(v) \/ ~RIsSmallInt(v.r) THEN FALSE ELSE RToInt(v.r) >= lo /\ RToInt(v.r) <= hi
Slice(s, from, to) ==   \* zero-based, to exclusive, negative from counts from the end
  LET n == Len(s)
      a0 == IF from < 0 THEN from + n ELSE from
      a == IF a0 < 0 THEN 0 ELSE IF a0 > n THEN n ELSE a0
      b == IF to > n THEN n ELSE to
  IN IF b <= a THEN <<>> ELSE SubSeq(s, a + 1, b)
StringOp(n, ss, nv) ==
  CASE n = "+$" -> Op0(StrV(ss[1] \o ss[2]))
    [] n \in {"<$", ">$", "<=$", ">=$", "==$", "!=$"} -> Op0(BoolV(Cmp3(StripOp(n), StrCmp(ss[1], ss[2]))))
    [] n \in {"<~", ">~", "<=~", ">=~", "==~", "!=~"} -> Op0(BoolV(Cmp3(StripOp(n), StrCmp(LowerStr(ss[1]), LowerStr(ss[2])))))
    [] n = "length" -> NumR(RInt(Len(ss[1])), UNone)
    [] n = "lower" -> Op0(StrV(LowerStr(ss[1])))
    [] n = "upper" -> Op0(StrV(UpperStr(ss[1])))
    [] n = "lstrip" -> Op0(StrV(StripL(ss[1], ss[2])))
    [] n = "rstrip" -> Op0(StrV(StripR(ss[1], ss[2])))
    [] n = "strip" -> Op0(StrV(StripR(StripL(ss[1], ss[2]), ss[2])))
    [] n = "find" -> NumR(RInt(IF ss[2] = <<>> THEN 0 ELSE FindSub(ss[1], ss[2], 1) - 1), UNone)
    [] n = "replace" -> Op0(StrV(StrReplace(ss[1], ss[2], ss[3])))
    [] n = "split" -> IF ss[2] = <<>> THEN Bad
                      ELSE LET ps == SplitOn(ss[1], ss[2]) IN Op0(ArrV(TLCEval([i \in DOMAIN ps |-> Op0(StrV(ps[i]))])))
    [] n = "*$" -> IF ~SmallInt(nv[2], -1000, 400) THEN AnyO ELSE Op0(StrV(RepeatSeq(ss[1], RToInt(nv[2].r))))
    [] n = "substr" -> IF ~SmallInt(nv[2], -9999, 9999) \/ (Len(nv) = 3 /\ ~SmallInt(nv[3], -9999, 9999)) THEN AnyO
                       ELSE LET from == RToInt(nv[2].r)
                                e0 == IF Len(nv) = 3 THEN RToInt(nv[3].r) + 1 ELSE 99999
                                end == IF e0 > 0 THEN e0 ELSE BMax(e0 + Len(ss[1]), 0)
                            IN Op0(StrV(Slice(ss[1], from, end)))
    [] OTHER -> AnyO

(* regular expressions *)
StrArr(ts) == Op0(ArrV(TLCEval([i \in DOMAIN ts |-> Op0(StrV(ts[i]))])))
RegexOp(n, ss, nv) ==
  LET p == TLCEval(RxParse(ss[2]))
      s == ss[1]
      matches == TLCEval(RxAll(p, s, 1, FALSE))
      found == TLCEval([k \in DOMAIN matches |-> LET gs == RxGroups(s, matches[k])
                                                 IN IF p.g = 0 THEN StrV(RxText(s, matches[k])) ELSE IF p.g = 1 THEN StrV(gs[1]) ELSE StrArr(gs).v])
      nth == Len(nv) = (IF n = "regexsub" THEN 4 ELSE 3)
      t == TLCEval(RxTemplate(ss[3], 1, p.g, <<>>))
  IN IF p.k = "bad" THEN Bad
     ELSE IF p.k = "open" \/ Len(s) > 100 \/ (~p.plain /\ \E i \in DOMAIN s : s[i] > 127) \/ (~p.plain /\ \E i \in DOMAIN ss[2] : ss[2][i] > 127) THEN AnyO
     ELSE IF n \in {"regexget", "regexsub"} /\ nth /\ (nv[Len(nv)].u.o # "-" \/ ~SmallInt(nv[Len(nv)], 1, 9999)) THEN AnyO
     ELSE CASE n = "=~" -> Op0(BoolV(RxFrom(p, s, 1, FALSE) # <<>>))
            [] n = "!~" -> Op0(BoolV(RxFrom(p, s, 1, FALSE) = <<>>))
            [] n = "regexcount" -> NumR(RInt(Len(matches)), UNone)
            [] n = "regexget" -> IF ~nth THEN Op0(ArrV(TLCEval([k \in DOMAIN found |-> Op0(found[k])])))
                                 ELSE IF RToInt(nv[3].r) > Len(found) THEN Bad
                                 ELSE Op0(found[RToInt(nv[3].r)])
            [] n = "regexsplit" -> StrArr(FlattenSeq(TLCEval([k \in 1..(Len(matches) + 1) |-> <<RxGap(s, matches, k)>> \o (IF k > Len(matches) THEN <<>> ELSE RxGroups(s, matches[k]))])))
            [] n = "regexsub" -> IF t.k = "bad" THEN Bad ELSE IF t.k = "open" THEN AnyO
                                 ELSE Op0(StrV(RxSub(s, IF nth THEN SubSeq(matches, 1, BMin(RToInt(nv[4].r), Len(matches))) ELSE matches, t.xs)))

(* dates *)
DateShift(o, sec, s) ==
  LET d == ParseDate(o.v.s)
      us == RAdd(d.us, RMul(RInt(s), ToMicros(sec)))
  IN IF d.t # "date" THEN AnyO
     ELSE IF ~InRange(us) THEN Bad
     ELSE Op0(StrV(PrintDate(us, d.tz)))
Seconds == [o |-> "n", f |-> ROne, d |-> DTime, x |-> TRUE, q |-> "s", pin |-> TRUE]
DateDiff(ins) ==
  LET a == ParseDate(ins[1].v.s)
      b == ParseDate(ins[2].v.s)
      Utc(d) == IF d.tz = 9999 THEN d.us ELSE RSub(d.us, RMul(RInt(60 * d.tz), RTen(6)))
      sec == RDiv(RAbs(RSub(Utc(a), Utc(b))), RTen(6))
      c == IF Len(ins) = 3 THEN Conv(sec, Seconds, ins[3].v.u, FALSE) ELSE <<"ok", sec>>
  IN IF a.t # "date" \/ b.t # "date" THEN AnyO
     ELSE IF (a.tz = 9999) # (b.tz = 9999) THEN Bad
     ELSE IF c[1] = "err" THEN Bad
     ELSE IF c[1] = "any" THEN AnyO
     ELSE NumR(c[2], IF Len(ins) = 3 THEN [ins[3].v.u EXCEPT !.pin = TRUE] ELSE Seconds)

(* 'to' *)
ConvertTo(v, u) ==
  LET r == IF v.k = "unit" THEN ROne ELSE v.r
      c == Conv(r, v.u, u, FALSE)
      same == Same(v.u, u)
      keep == v.k = "num" /\ v.w >= 0
      tu == [u EXCEPT !.pin = TRUE]
  IN IF c[1] = "err" THEN Bad
     ELSE IF c[1] = "any" THEN AnyO
     ELSE IF v.k = "unit" THEN NumR(c[2], tu)
     ELSE Op0([NumU(c[2], tu) EXCEPT !.c = IF keep /\ same THEN [v.c EXCEPT !.b = IF v.c.t = "arb" THEN @ ELSE 1] ELSE v.c])

(* real functions *)
Real(t, u) == CASE t[1] = "ok" -> Op0(ApxV(t[2], u, RMul(RInt(2), RTen(-12)))) [] t[1] = "dom" -> Bad [] OTHER -> AnyO
RECURSIVE Factorial(_)
Factorial(n) == IF n <= 1 THEN BOne ELSE BMulN(Factorial(n - 1), n)
Function1(n, v) ==
  CASE n = "abs" -> NumR(RAbs(v.r), v.u)
    [] n = "fact" -> IF v.r.s < 0 \/ ~IntNum(v) THEN (IF v.u.x THEN Bad ELSE AnyO)
                     ELSE IF ~v.u.x \/ ~SmallInt(v, 0, 69) THEN AnyO ELSE NumR(RBig(Factorial(RToInt(v.r))), v.u)
    [] v.u.o # "-" -> AnyO
    [] n = "exp" -> Real(ExpValue(v.r), v.u)
    [] OTHER -> Real(TrigValue(n, v.r), v.u)
GcdLcm(n, a, b, u) ==
  IF ~u.x THEN AnyO
  ELSE IF ~RIsInt(a) \/ ~RIsInt(b) THEN Bad
  ELSE LET gg == IF a.s = 0 THEN RAbs(b) ELSE IF b.s = 0 THEN RAbs(a) ELSE RRaw(1, BGcd(a.n, b.n), BOne)
       IN IF n = "gcd" THEN NumR(gg, u)
          ELSE IF a.s = 0 \/ b.s = 0 THEN NumR(RZero, u)
          ELSE NumOk(RRaw(1, BMul(a.n, BDiv(b.n, gg.n)), BOne), u)
(* to one digit before the point and some after, halves away from zero      *)
SignificantTo(v, w) ==
  IF w.u.o # "-" \/ w.c.t # "none" \/ ~v.u.x \/ v.r.s = 0 \/ ~RIsSmallInt(w.r) \/ DL(v.r.n) + DL(v.r.d) > 80 THEN (IF w.u.o = "-" /\ v.u.x /\ (w.r.s < 0 \/ ~RIsInt(w.r)) /\ w.c.t = "none" /\ v.r.s # 0 THEN Bad ELSE AnyO)
  ELSE IF ~SmallInt(w, 0, 60) THEN (IF w.r.s < 0 THEN Bad ELSE AnyO)
  ELSE LET l == BLen10(v.r.n) - BLen10(v.r.d)
           e == IF RLt(RAbs(v.r), RTen(l)) THEN l - 1 ELSE l
           k == RToInt(w.r) - e
       IN Op0([NumU(RDiv(RRound(RMul(v.r, RTen(k))), RTen(k)), v.u) EXCEPT !.c = Cast("exp")])
AsCast(v, t) == Op0([NumU(v.r, v.u) EXCEPT !.c = Cast(t)])

----------------------------------------------------------------------------
MaxDepth == 30
RECURSIVE Call(_, _, _, _, _), Rows(_, _, _, _, _, _, _, _), Apply(_, _, _, _, _), Perform(_, _, _, _, _, _, _)
RECURSIVE Eval(_, _, _, _), EvItems(_, _, _, _, _, _), Reduce(_, _, _, _, _), EvItem(_, _, _, _), EvArgs(_, _, _, _, _, _), EvElems(_, _, _, _, _, _)
RECURSIVE Body(_, _, _, _, _, _, _), Pointers(_, _, _, _, _, _, _), OneRange(_, _, _, _)

BuiltIn(n) == [n |-> n, sig |-> SigTable[n], b |-> <<>>]

(* one operation on its operands *)
Call(g, S, fn, ins, fl) ==
  LET sig == fn.sig
      n == Len(ins)
      arrs == {i \in 1..n : ins[i].v.k = "arr" /\ ~CanBeArray(sig, i) /\ ~(ins[i].f.t # "none" /\ CanBeVar(sig, i))}
      every == {i \in 1..n : ins[i].v.k = "arr"}
      single == arrs = {} /\ sig.max = 1 /\ n > 1 /\ MustBeArray(sig, 1)
      lens == {Len(ins[i].v.e) : i \in (IF single THEN every ELSE arrs)}
      errs == {i \in 1..n : IsErr(ins[i])}
  IN IF S.any \/ \E i \in 1..n : ins[i].v.k = "any" THEN Unknown(S)
     ELSE IF arrs # {}
          THEN (IF Cardinality(lens) > 1 THEN <<S, Bad>>
                ELSE Rows(g, S, fn, ins, arrs, 1, CHOOSE l \in lens : TRUE, <<<<>>, fl, TRUE>>))
     ELSE IF single
          THEN (IF Cardinality(lens) > 1 THEN <<S, Bad>>
                ELSE IF lens = {} THEN Call(g, S, fn, <<Op0(ArrV(ins))>>, fl)
                ELSE Rows(g, S, fn, ins, every, 1, CHOOSE l \in lens : TRUE, <<<<>>, fl, FALSE>>))
     ELSE IF errs # {} /\ ~sig.exc THEN <<S, ins[CHOOSE i \in errs : \A j \in errs : i <= j]>>
     ELSE Apply(g, S, fn, ins, fl)

(* element by element: acc = <<results, flags, keep failed elements>>       *)
Rows(g, S, fn, ins, arrs, i, len, acc) ==
  IF i > len THEN Same2(S, Op0(ArrV(acc[1])))
  ELSE LET row == TLCEval([k \in DOMAIN ins |-> IF k \in arrs THEN ins[k].v.e[i] ELSE ins[k]])
           r == Call(g, S, fn, IF acc[3] THEN row ELSE <<Op0(ArrV(row))>>, acc[2])
           o == r[2]
       IN IF r[1].any THEN Unknown(r[1])
          ELSE IF ~acc[3] /\ (IsErr(o) \/ o.v.k = "arr") THEN <<r[1], Bad>>
          ELSE Rows(g, r[1], fn, ins, arrs, i + 1, len, <<Append(acc[1], [o EXCEPT !.v = Stored(o.v)]), acc[2], acc[3]>>)

Apply(g, S, fn, ins, fl) ==
  LET sig == fn.sig
      n == Len(ins)
      ok == TLCEval([i \in 1..n |-> Accepts(sig, i, ins[i])])
      conv == TLCEval([i \in 1..n |-> sig.ain /\ CanBeNumber(sig, i) /\ NumOf(ins[i].v).t = "ok"])
      nv == TLCEval([i \in 1..n |-> IF conv[i] THEN NumOf(ins[i].v).v ELSE ins[i].v])
      cast == FoldLeft(LAMBDA acc, i : IF acc.t = "none" /\ conv[i] THEN nv[i].c ELSE acc, NoCast, [i \in 1..n |-> i])
      allnum == \A i \in 1..n : CanBeNumber(sig, i) /\ NumOf(ins[i].v).t = "ok"
      units == {i \in 1..n : allnum /\ HasUnit(NumOf(ins[i].v).v)}
      multi == fn.n \in {"*", "/", "IMPLICIT_MULTIPLY"}
      rel == fn.n \in {"+", "-", "*", "/", "IMPLICIT_MULTIPLY"}
      same == allnum /\ sig.norm /\ ~multi /\ units # {} /\ n > 1
      cs == TLCEval([i \in 1..n |-> IF same THEN Conv(nv[i].r, nv[i].u, nv[1].u, rel) ELSE <<"ok">>])
      vv == TLCEval([i \in 1..n |-> IF same /\ cs[i][1] = "ok" THEN (IF cs[i][2] = nv[i].r THEN [nv[i] EXCEPT !.u = nv[1].u]
                                                                    ELSE [nv[i] EXCEPT !.r = cs[i][2], !.u = nv[1].u, !.w = -1]) ELSE nv[i]])
      ru == IF allnum /\ sig.norm /\ ~multi /\ units # {} THEN nv[CHOOSE i \in units : \A j \in units : i <= j].u ELSE UNone
  IN IF n < sig.min \/ n > sig.max THEN <<S, Bad>>
     ELSE IF \E i \in 1..n : ok[i] = "no" THEN <<S, Bad>>
     ELSE IF \E i \in 1..n : ok[i] = "any" THEN Unknown(S)
     ELSE IF \E i \in 1..n : ~DimOk(sig, i, ins[i]) THEN <<S, Bad>>
     ELSE IF (\E i \in 1..n : ins[i].v.k = "apx") /\ fn.n \notin {"=", "||=", "then", "inline", "external"} THEN Unknown(S)
     ELSE IF (\E i \in 1..n : Loose(ins[i].v)) /\ fn.n \notin {"=", "||=", "then", "inline", "*", "/", "^", "IMPLICIT_MULTIPLY"} THEN Unknown(S)
     ELSE IF \E i \in 1..n : cs[i][1] = "err" THEN <<S, Bad>>
     ELSE IF \E i \in 1..n : cs[i][1] = "any" THEN Unknown(S)
     ELSE LET r == Perform(g, S, fn, ins, vv, ru, fl)
              o == r[2]
          IN IF r[1].any \/ DeepAny(o.v) THEN Unknown(r[1])
             ELSE IF sig.ares /\ cast.t # "none" /\ o.v.k = "num"
                  THEN <<r[1], [o EXCEPT !.v.c = [cast EXCEPT !.b = IF cast.t = "bin" THEN o.v.c.b ELSE @]]>>
             ELSE IF sig.ares /\ cast.t # "none" /\ o.v.k = "apx" THEN <<r[1], o>>
             ELSE r

Perform(g, S, fn, ins, vv, ru, fl) ==
  LET n == fn.n
      Str == TLCEval([i \in DOMAIN ins |-> StrOf(ins[i].v)])
      ss == TLCEval([i \in DOMAIN ins |-> IF Str[i].t = "ok" THEN Str[i].v ELSE <<>>])
      strs(k) == \A i \in 1..k : Str[i].t = "ok"
      Pure(o) == <<S, o>>
      i1 == ins[1]
      b(i) == ins[i].v.b
  IN CASE n \in {"+", "-", "%", "\\"} \cup CompareOps -> Pure(Arith(n, vv[1].r, vv[2].r, ru))
       [] n \in {"*", "IMPLICIT_MULTIPLY", "UNIT_MULTIPLY"} -> Pure(QTimes(vv[1], vv[2], FALSE))
       [] n = "UNIT_ASSIGNMENT" -> Pure(QTimes(vv[1], vv[2], TRUE))
       [] n \in {"/", "UNIT_DIVIDE"} -> Pure(QOver(vv[1], vv[2]))
       [] n = "^" -> Pure(QPower(vv[1], vv[2]))
       [] n \in BitOps -> Pure(Bitwise2(n, vv[1], vv[2]))
       [] n = "~" -> Pure(BitNot(NumOf(i1.v).v))
       [] n = "not" -> Pure(Op0(BoolV(~i1.v.b)))
       [] n = "and" -> Pure(IF ~b(1) THEN Op0(BoolV(FALSE)) ELSE IF IsErr(ins[2]) THEN Bad ELSE Op0(BoolV(b(2))))
       [] n = "or"  -> Pure(IF b(1) THEN Op0(BoolV(TRUE)) ELSE IF IsErr(ins[2]) THEN Bad ELSE Op0(BoolV(b(2))))
       [] n = "xor" -> Pure(IF IsErr(ins[2]) THEN Bad ELSE Op0(BoolV(b(1) # b(2))))
       [] n = "then" -> Pure(IF b(1) THEN ins[2] ELSE ins[3])
       [] n = "=" -> <<IF fl.sl THEN S ELSE SetVar(S, i1.f.n, ins[2].v), Op0(ins[2].v)>>
       [] n = "||=" -> <<IF fl.sl \/ i1.f.n \in DOMAIN S.v THEN S ELSE SetVar(S, i1.f.n, ins[2].v), Op0(ins[2].v)>>
       [] n \in CompoundOps \cup {"++", "--"} ->
            IF fl.sl THEN Unknown(S)
            ELSE IF i1.f.n \notin DOMAIN S.v THEN <<S, Bad>>
            ELSE LET op == CASE n = "++" -> "+" [] n = "--" -> "-" [] OTHER -> BaseOfCompound(n)
                     rhs == IF n \in {"++", "--"} THEN Op0(Plain(ROne)) ELSE [ins[2] EXCEPT !.v = vv[2]]
                     r == Call(g, S, BuiltIn(op), <<Op0(S.v[i1.f.n]), rhs>>, fl)
                 IN IF r[1].any THEN Unknown(r[1])
                    ELSE IF IsErr(r[2]) THEN <<r[1], Bad>>
                    ELSE <<SetVar(r[1], i1.f.n, r[2].v), Op0(r[2].v)>>
       [] n = "delete" -> IF i1.f.n \in DOMAIN S.v THEN <<DelVar(S, i1.f.n), Op0(NilV)>> ELSE <<S, Bad>>
       [] n = "reset" -> IF fl.sl THEN Unknown(S) ELSE <<[S EXCEPT !.v = EmptyVars], Op0(NilV)>>
       [] n = "to" -> Pure(ConvertTo(i1.v, ins[2].v.u))
       [] n = "as" -> Pure(LET w == ins[2].v.s
                           IN IF w = C("binary") THEN AsCast(vv[1], "bin") ELSE IF w = C("octal") THEN AsCast(vv[1], "oct")
                              ELSE IF w = C("hexadecimal") THEN AsCast(vv[1], "hex") ELSE IF w = C("decimal") THEN AsCast(vv[1], "dec")
                              ELSE IF w = C("percentage") THEN AsCast(vv[1], "pct") ELSE IF w = C("scientific") THEN AsCast(vv[1], "exp") ELSE Bad)
       [] n \in {"hex", "oct", "bin", "dec"} -> Pure(AsCast(vv[1], n))
       [] n = "scientific" -> Pure(IF Len(ins) = 2 THEN SignificantTo(vv[1], vv[2]) ELSE AsCast(vv[1], "exp"))
       [] n = "base" -> Pure(IF HasUnit(vv[1]) \/ HasUnit(vv[2]) \/ ~SmallInt(vv[2], -99, 99) THEN AnyO
                             ELSE LET k == RToInt(vv[2].r)
                                      p == IF k >= 2 /\ k <= 36 THEN PrintR(vv[1].r, [t |-> "arb", b |-> k], -1) ELSE <<FALSE>>
                                  IN IF k < 2 \/ k > 36 THEN (IF vv[1].r.s = 0 THEN AnyO ELSE Bad)
                                     ELSE IF p[1] THEN Op0(StrV(p[2])) ELSE AnyO)
       [] n \in {"abs", "fact", "exp"} \cup TrigNames -> Pure(Function1(n, vv[1]))
       [] n = "log" -> Pure(IF \E i \in DOMAIN vv : HasUnit(vv[i]) THEN AnyO
                            ELSE Real(IF Len(vv) = 1 THEN LnValue(vv[1].r) ELSE LogValue(vv[1].r, vv[2].r), UNone))
       [] n \in {"gcd", "lcm"} -> Pure(GcdLcm(n, vv[1].r, vv[2].r, ru))
       [] n \in {"floor", "ceil", "round"} ->
            Pure(IF Len(vv) = 1 THEN Rounded(n, vv[1], 0) ELSE IF ~SmallInt(vv[2], 0, 30) THEN AnyO ELSE Rounded(n, vv[1], RToInt(vv[2].r)))
       [] n \in {"sum", "min", "max", "mean", "median", "mode", "stdev", "sort"} -> Pure(Statistic(n, i1.v.e))
       [] n = "concat" -> Pure(Op0(ArrV(i1.v.e \o ins[2].v.e)))
       [] n = "element" -> Pure(IF ~SmallInt(vv[2], 1, 9999) THEN AnyO
                                ELSE LET k == RToInt(vv[2].r) IN IF k > Len(i1.v.e) THEN Bad ELSE i1.v.e[k])
       [] n = "filter" -> Pure(IF Len(i1.v.e) # Len(ins[2].v.e) THEN AnyO
                               ELSE Op0(ArrV(LET ks == SelectSeq([k \in 1..Len(i1.v.e) |-> k], LAMBDA k : ins[2].v.e[k].v.b)
                                             IN TLCEval([k \in DOMAIN ks |-> i1.v.e[ks[k]]]))))
       [] n = "count" -> Pure(NumR(RInt(Len(i1.v.e)), UNone))
       [] n = "reverse" -> Pure(Op0(ArrV(Reverse(i1.v.e))))
       [] n = "join" -> Pure(LET es == TLCEval([k \in DOMAIN i1.v.e |-> StrOf(i1.v.e[k].v)])
                             IN IF (\E k \in DOMAIN es : es[k].t # "ok") \/ (Len(ins) = 2 /\ Str[2].t # "ok") THEN AnyO
                                ELSE Op0(StrV(JoinWith(TLCEval([k \in DOMAIN es |-> es[k].v]), IF Len(ins) = 2 THEN ss[2] ELSE <<>>))))
       [] n \in StringOps \cup {"lstrip", "rstrip", "strip", "find", "split"} -> Pure(IF strs(2) THEN StringOp(n, ss, vv) ELSE AnyO)
       [] n \in {"length", "lower", "upper", "*$", "substr"} -> Pure(IF strs(1) THEN StringOp(n, ss, vv) ELSE AnyO)
       [] n = "replace" -> Pure(IF strs(3) THEN StringOp(n, ss, vv) ELSE AnyO)
       [] n \in {"=~", "!~", "regexget", "regexsplit", "regexcount"} -> Pure(IF strs(2) THEN RegexOp(n, ss, vv) ELSE AnyO)
       [] n = "regexsub" -> Pure(IF strs(3) THEN RegexOp(n, ss, vv) ELSE AnyO)
       [] n \in {"+%", "dateadd"} -> Pure(DateShift(i1, RMul(vv[2].r, vv[2].u.f), 1))
       [] n \in {"-%", "datesubtract"} -> Pure(DateShift(i1, RMul(vv[2].r, vv[2].u.f), -1))
       [] n = "datedifference" -> Pure(DateDiff(ins))
       [] n = "dateformat" -> Pure(LET d == ParseDate(i1.v.s) IN IF d.t # "date" \/ RLt(d.us, RMul(RInt(DayNumber(1000, 1, 1)), MicroDay)) THEN AnyO ELSE Op0(StrV(ReadableDate(d.us, d.tz))))
       [] n = "format" -> Pure(FormatOp(i1.v, IF Len(ins) = 2 THEN <<ins[2].v.s>> ELSE <<>>, g.pref))
       [] n = "compact" -> Pure(IF i1.v.u.x /\ i1.v.u.q = "s" THEN i1
                                ELSE IF i1.v.u.d = DTemp THEN AnyO ELSE NumR(RMul(i1.v.r, i1.v.u.f), SIUnit(i1.v.u.d)))
       [] n \in {"inline", "external"} ->
            IF fl.dep >= MaxDepth THEN Unknown(S)
            ELSE LET base == IF n = "inline" THEN S.v ELSE EmptyVars
                     pname(i) == C("PARAM") \o NatCodes(i)
                     inner == FoldLeft(LAMBDA T0, i : SetVar(T0, pname(i), ins[i].v), [S EXCEPT !.v = base], [i \in 1..Len(ins) |-> i])
                     r == Body(g, inner, fn.b, 1, Bad, [sl |-> fl.sl /\ n = "inline", dep |-> fl.dep + 1], n = "external")
                 IN <<[S EXCEPT !.any = r[1].any], Op0(r[2].v)>>
       [] OTHER -> Unknown(S)

(* the statements of a function: the value of the last one that has any     *)
Body(g, S, st, i, last, fl, final) ==
  IF i > Len(st) THEN <<S, last>>
  ELSE IF st[i].items = <<>> THEN Body(g, S, st, i + 1, last, fl, final)
  ELSE LET r == Eval(g, S, st[i].items, fl)
       IN IF r[1].any THEN Unknown(r[1])
          ELSE IF IsErr(r[2]) THEN <<r[1], Bad>>
          ELSE Body(g, r[1], st, i + 1, IF final THEN Op0(Final(r[2].v)) ELSE r[2], fl, final)

----------------------------------------------------------------------------
(* expressions *)
At(o, p) == IF IsErr(o) /\ o.v.p = -2 THEN Op0(ErrV(p)) ELSE o
Entry2(it, o, ix) == IF it.k = "op" THEN [o |-> it.s, v |-> Bad, ix |-> ix]
                     ELSE [o |-> IF o.v.k = "unit" THEN "u" ELSE "v", v |-> o, ix |-> ix]
Eval(g, S, items, fl) ==
  IF items = <<>> THEN <<S, Op0(ErrV(-1))>>
  ELSE LET r == EvItems(g, S, items, fl, 1, <<>>)
       IN IF r[1].any THEN Unknown(r[1]) ELSE Reduce(g, r[1], items, r[2], fl)

EvItems(g, S, items, fl, i, acc) ==
  IF i > Len(items) THEN <<S, acc>>
  ELSE IF items[i].k = "op" THEN EvItems(g, S, items, fl, i + 1, Append(acc, Entry2(items[i], Bad, i)))
  ELSE LET r == EvItem(g, S, items[i], fl)
       IN IF r[1].any \/ DeepAny(r[2].v) THEN Unknown(r[1])
          ELSE EvItems(g, r[1], items, fl, i + 1, Append(acc, Entry2(items[i], At(r[2], items[i].p), i)))

Reduce(g, S, items, es, fl) ==
  LET os == TLCEval([k \in DOMAIN es |-> es[k].o])
      i == PickAt(os)
      where(k) == items[es[k].ix].p
  IN IF i = 0
     THEN (IF Len(es) = 1 THEN (IF IsOp(os[1]) THEN <<S, Op0(ErrV(where(1)))>> ELSE <<S, es[1].v>>)
           ELSE LET ops == {k \in DOMAIN os : IsOp(os[k])}
                IN <<S, Op0(ErrV(where(IF ops = {} THEN 1 ELSE CHOOSE k \in ops : \A j \in ops : k <= j)))>>)
     ELSE LET f == Offer(os, i)
              x == Extent(os, i)
              fail == <<S, Op0(ErrV(where(i)))>>
          IN IF x[1] # "ok" THEN fail
             ELSE LET ks == SelectSeq([k \in 1..(x[3] - x[2] + 1) |-> x[2] + k - 1], LAMBDA k : ~(k = i /\ f[3] = 1))
                      then == f[2] = "then"
                      early == IF then THEN SubSeq(ks, 1, 2) ELSE ks
                      args == IF then THEN <<ks[1], ks[2], ks[4]>> ELSE ks
                  IN IF \E k \in DOMAIN early : IsOp(os[early[k]]) THEN fail
                     ELSE IF then /\ os[ks[3]] # "else" THEN <<S, Op0(ErrV(where(ks[3])))>>
                     ELSE IF then /\ IsOp(os[ks[4]]) THEN fail
                     ELSE LET r == Call(g, S, BuiltIn(f[2]), TLCEval([k \in DOMAIN args |-> es[args[k]].v]), fl)
                          IN IF r[1].any THEN Unknown(r[1])
                             ELSE LET o == At(r[2], where(i))
                                      e == [o |-> IF o.v.k = "unit" THEN "u" ELSE "v", v |-> o, ix |-> es[i].ix]
                                  IN Reduce(g, r[1], items, SubSeq(es, 1, x[2] - 1) \o <<e>> \o SubSeq(es, x[3] + 1, Len(es)), fl)

(* arguments: <<S, operands, error operand or none>> *)
EvArgs(g, S, args, fl, i, acc) ==
  IF i > Len(args) THEN <<S, acc, <<>>>>
  ELSE LET r == Eval(g, S, args[i], fl)
       IN IF r[1].any THEN <<r[1], acc, <<>>>>
          ELSE IF IsErr(r[2]) THEN <<r[1], acc, <<r[2]>>>>
          ELSE EvArgs(g, r[1], args, fl, i + 1, Append(acc, r[2]))

EvItem(g, S, it, fl) ==
  CASE it.k \in {"lit", "con", "word"} -> Same2(S, Op1(it.v))
    [] it.k = "unit" -> <<S, Op1(UnitV(it.u))>>
    [] it.k = "var" -> <<S, [v |-> IF it.n \in DOMAIN S.v THEN S.v[it.n] ELSE NilV, f |-> VarRef(it.n)]>>
    [] it.k = "paren" -> Eval(g, S, it.items, fl)
    [] it.k = "inl" -> <<S, Op0(FnV(it.st))>>
    [] it.k = "arr" -> EvElems(g, S, it.els, fl, 1, <<>>)
    [] it.k = "fun" -> LET a == EvArgs(g, S, it.args, fl, 1, <<>>)
                       IN IF a[1].any THEN Unknown(a[1])
                          ELSE IF a[3] # <<>> THEN <<a[1], a[3][1]>>
                          ELSE Call(g, a[1], BuiltIn(it.n), a[2], fl)
    [] it.k = "ptr" ->
         IF it.n \notin DOMAIN S.v THEN <<S, Bad>>
         ELSE LET ref == S.v[it.n]
                  a == EvArgs(g, S, it.args, fl, 1, <<>>)
              IN IF a[1].any THEN Unknown(a[1])
                 ELSE IF a[3] # <<>> THEN <<a[1], a[3][1]>>
                 ELSE IF ref.k = "arr" THEN Pointers(g, a[1], ref.e, a[2], fl, 1, <<>>)
                 ELSE LET r == Pointers(g, a[1], <<Op0(ref)>>, a[2], fl, 1, <<>>)
                      IN IF r[1].any THEN Unknown(r[1])
                         ELSE IF r[2].v.k = "arr" THEN <<r[1], r[2].v.e[1]>> ELSE r

(* the functions of an array of function pointers, each called *)
Pointers(g, S, refs, args, fl, i, acc) ==
  IF i > Len(refs) THEN <<S, Op0(ArrV(acc))>>
  ELSE LET v == refs[i].v
           known == v.k = "str" /\ v.s \in DOMAIN g.files
           text == IF known THEN g.files[v.s] ELSE <<>>
           h == IF known THEN Header(text, g) ELSE [ok |-> FALSE]
           p == IF h.ok THEN Parse(text, g) ELSE [ok |-> FALSE, p |-> 0]
           fn == IF v.k = "fn" THEN [n |-> "inline", sig |-> NoSig, b |-> v.b]
                 ELSE IF h.ok THEN [n |-> "external", sig |-> h.sig, b |-> IF p.ok THEN p.st ELSE <<>>] ELSE [n |-> ""]
       IN IF v.k \notin {"str", "fn"} \/ (v.k = "str" /\ ~h.ok) THEN <<S, Bad>>
          ELSE IF v.k = "str" /\ ~p.ok /\ p.p = -7 THEN Unknown(S)
          ELSE LET r == Call(g, S, fn, args, fl)
               IN IF r[1].any THEN Unknown(r[1])
                  ELSE IF IsErr(r[2]) THEN <<r[1], Bad>>
                  ELSE Pointers(g, r[1], refs, args, fl, i + 1, Append(acc, r[2]))

EvElems(g, S, els, fl, i, acc) ==
  IF i > Len(els) THEN <<S, Op1(ArrV(acc))>>
  ELSE LET r == IF els[i].n = 1 THEN Eval(g, S, els[i].e, fl) ELSE OneRange(g, S, els[i], fl)
       IN IF r[1].any THEN Unknown(r[1])
          ELSE IF IsErr(r[2]) THEN r
          ELSE EvElems(g, r[1], els, fl, i + 1, IF els[i].n = 1 THEN Append(acc, r[2]) ELSE acc \o r[2].v.e)

RECURSIVE Count(_, _, _, _)
Count(r, step, end, n) == IF n > 201 \/ (IF step.s > 0 THEN RLt(end, r) ELSE RLt(r, end)) THEN <<>>
                          ELSE <<r>> \o Count(RAdd(r, step), step, end, n + 1)
OneRange(g, S, el, fl) ==
  LET bad(T0) == <<T0, Op0(ErrV(-1))>>
      r1 == Eval(g, S, el.e, fl)
      n1 == NumOf(r1[2].v)
      r2 == Eval(g, r1[1], el.r, fl)
      n2 == NumOf(r2[2].v)
      r3 == IF el.n = 3 THEN Eval(g, r2[1], el.s, fl) ELSE r2
      n3 == IF el.n = 3 THEN NumOf(r3[2].v) ELSE n2
      a == n1.v
      mixed == a.u.o # "-" \/ n2.v.u.o # "-" \/ n3.v.u.o # "-"
      c2 == IF mixed THEN Conv(n2.v.r, n2.v.u, a.u, FALSE) ELSE <<"ok", n2.v.r>>
      c3 == IF el.n = 3 THEN (IF mixed THEN Conv(n3.v.r, n3.v.u, a.u, TRUE) ELSE <<"ok", n3.v.r>>) ELSE <<"ok", ROne>>
      o == Order(c2[2], a.r)
      step == IF el.n = 3 THEN c3[2] ELSE IF o < 0 THEN RInt(-1) ELSE ROne
      vs == Count(a.r, step, c2[2], 1)
  IN IF r1[1].any THEN Unknown(r1[1])
     ELSE IF IsErr(r1[2]) THEN r1
     ELSE IF n1.t = "no" THEN bad(r1[1])
     ELSE IF n1.t = "any" THEN Unknown(r1[1])
     ELSE IF r2[1].any THEN Unknown(r2[1])
     ELSE IF IsErr(r2[2]) THEN r2
     ELSE IF n2.t = "no" THEN bad(r2[1])
     ELSE IF n2.t = "any" THEN Unknown(r2[1])
     ELSE IF r3[1].any THEN Unknown(r3[1])
     ELSE IF el.n = 3 /\ IsErr(r3[2]) THEN r3
     ELSE IF n3.t = "no" THEN bad(r3[1])
     ELSE IF n3.t = "any" THEN Unknown(r3[1])
     ELSE IF mixed /\ (a.u.o = "-" \/ n2.v.u.o = "-" \/ n3.v.u.o = "-") THEN bad(r3[1])
     ELSE IF c2[1] = "err" \/ c3[1] = "err" THEN bad(r3[1])
     ELSE IF c2[1] = "any" \/ c3[1] = "any" \/ ~a.u.x THEN Unknown(r3[1])
     ELSE IF o = 9 \/ ~Fine(a.r) \/ ~Fine(c2[2]) \/ ~Fine(step) \/ ~FitsAdd(a.r, step) THEN Unknown(r3[1])
     ELSE IF o * step.s < 0 THEN bad(r3[1])
     ELSE IF step.s = 0 THEN <<r3[1], Op1(ArrV(<<>>))>>
     ELSE IF Len(vs) > 200 THEN Unknown(r3[1])
     ELSE <<r3[1], Op1(ArrV(TLCEval([i \in DOMAIN vs |-> Op0([NumU(vs[i], a.u) EXCEPT !.c = a.c, !.w = IF i = 1 THEN a.w ELSE -1])])))>>
=============================================================================
