------------------------------- MODULE Lexer -------------------------------
(* From the text (a sequence of character codes) to statements of items.    *)
(*                                                                          *)
(* g is the calculator's configuration (see Session), fl the flags of the   *)
(* nesting the text is in.  Lex returns                                     *)
(*   [ok |-> TRUE, e |-> how it ended, i |-> where, st |-> statements]      *)
(*   [ok |-> FALSE, p |-> position of what cannot be parsed]                *)
(* A statement is [a, b, items]: it is the text from a up to before b.      *)
EXTENDS Grammar, Units

FuncNames == TLCEval({C(n) : n \in {
  "abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "base", "bin", "ceil", "compact", "concat", "cos", "cosh", "count",
  "dateadd", "datedifference", "dateformat", "datesubtract", "dec", "delete", "element", "exp", "fact", "filter", "find",
  "floor", "format", "gcd", "hex", "join", "lcm", "length", "log", "lower", "lstrip", "max", "mean", "median", "min", "mode",
  "now", "oct", "regexcount", "regexget", "regexsplit", "regexsub", "replace", "reset", "reverse", "round", "rstrip",
  "scientific", "sin", "sinh", "sort", "split", "stdev", "strip", "substr", "sum", "tan", "tanh", "upper"}})
FuncName == TLCEval([k \in FuncNames |-> CHOOSE n \in {
  "abs", "acos", "acosh", "asin", "asinh", "atan", "atanh", "base", "bin", "ceil", "compact", "concat", "cos", "cosh", "count",
  "dateadd", "datedifference", "dateformat", "datesubtract", "dec", "delete", "element", "exp", "fact", "filter", "find",
  "floor", "format", "gcd", "hex", "join", "lcm", "length", "log", "lower", "lstrip", "max", "mean", "median", "min", "mode",
  "now", "oct", "regexcount", "regexget", "regexsplit", "regexsub", "replace", "reset", "reverse", "round", "rstrip",
  "scientific", "sin", "sinh", "sort", "split", "stdev", "strip", "substr", "sum", "tan", "tanh", "upper"} : C(n) = k])

Compound(f, d) == [o |-> "n", f |-> f, d |-> d, x |-> TRUE, q |-> "c", pin |-> FALSE]
E50 == Q("2.71828182845904523536028747135266249775724709369995")
Constants == TLCEval(
  LET K(n, v) == <<C(n), v>>
      ps == {K("e", Plain(E50)), K("pi", Plain(Pi50)), K("tau", Plain(RMul(RInt(2), Pi50))),
             K("G", NumV(Q("0.0000000000667408"), NoCast, -1, Compound(ROne, <<3, -2, -1, 0, 0, 0, 0, 0, 0, 0>>))),
             K("earthgravity", NumV(Q("9.80665"), NoCast, -1, Compound(ROne, <<1, -2, 0, 0, 0, 0, 0, 0, 0, 0>>))),
             K("speedoflight", NumV(Ls, NoCast, -1, Compound(ROne, <<1, -1, 0, 0, 0, 0, 0, 0, 0, 0>>))),
             K("Planck", NumV(RMul(Q("6.62607015"), RTen(-34)), NoCast, -1, Compound(ROne, <<2, -1, 1, 0, 0, 0, 0, 0, 0, 0>>)))}
  IN [k \in {p[1] : p \in ps} |-> (CHOOSE p \in ps : p[1] = k)[2]])
SystemNames == <<"gregorian", "si", "us", "uk", "asu", "nautical", "iec">>
Representations == <<"decimal", "scientific", "percentage", "boolean", "arbitrarybase", "binary", "hexadecimal", "octal">>
NamedAt(t, i, names) ==
  LET hit == SelectSeq(names, LAMBDA n : LET w == C(n) j == i + Len(C(n)) IN StartsAt(t, i, w) /\ (j > Len(t) \/ ~Alpha(t[j])))
  IN IF hit = <<>> THEN "" ELSE hit[1]

----------------------------------------------------------------------------
Top  == [func |-> FALSE, inner |-> FALSE, ign |-> FALSE, inl |-> FALSE, arr |-> FALSE]
InFunc == [Top EXCEPT !.func = TRUE, !.ign = TRUE]
InArr  == [Top EXCEPT !.arr = TRUE, !.ign = TRUE]
LexErr(p) == [ok |-> FALSE, p |-> p]
LexEnd(e, i, st) == [ok |-> TRUE, e |-> e, i |-> i, st |-> st]

(* what the look-ahead sees of the statement so far *)
Entry(it) == IF it.k = "op" THEN it.s ELSE "v"
StillWaiting(items) == Waiting(TLCEval([k \in 1..Len(items) |-> Entry(items[k])]))

(* end of string literal: <<position after it, characters>>, <<0>> if open  *)
RECURSIVE StrEnd(_, _, _, _, _)
StrEnd(t, g, i, esc, acc) ==
  IF i > Len(t) THEN <<0>>
  ELSE IF t[i] = g.q /\ ~esc THEN <<i + 1, acc>>
  ELSE IF t[i] = g.es /\ ~esc THEN StrEnd(t, g, i + 1, TRUE, acc)
  ELSE StrEnd(t, g, i + 1, FALSE, Append(acc, t[i]))

Item(k, i, j) == [k |-> k, p |-> i, q |-> j]
BoolAt(t, i) == LET n == IF StartsAtFold(t, i, C("true")) THEN 4 ELSE IF StartsAtFold(t, i, C("false")) THEN 5 ELSE 0
                IN IF n > 0 /\ (i + n > Len(t) \/ ~Word(t[i + n])) THEN n ELSE 0

RECURSIVE Lex(_, _, _, _, _, _, _), LexArgs(_, _, _, _), LexElems(_, _, _, _), Token(_, _, _, _, _)

(* one token: <<"skip", j>> <<"item", j, item>> <<"end", e>> <<"err", p>>   *)
Token(t, g, fl, i, cur) ==
  LET c == t[i]
      free == cur = <<>> \/ cur[Len(cur)].k = "op"
      num == IF free THEN ScanNum(t, i) ELSE NoNum
      op == OpAt(t, i)
      lit(j, v) == <<"item", j, [k |-> "lit", p |-> i, q |-> j, v |-> v]>>
      plain(k, j) == <<"item", j, Item(k, i, j)>>
  IN
  IF Space(c) THEN <<"skip", i + 1>>
  ELSE IF c = g.cm THEN <<"skip", FindCode(t, i, NL)>>
  ELSE IF BoolAt(t, i) > 0 THEN lit(i + BoolAt(t, i), [k |-> "bool", b |-> BoolAt(t, i) = 4])
  ELSE IF num[1] > 0 THEN lit(num[1], num[2])
  ELSE IF num[1] < 0 THEN <<"err", i>>
  ELSE IF op[1] > 0 THEN <<"item", i + op[1], [k |-> "op", p |-> i, q |-> i + op[1], s |-> op[2]]>>
  ELSE IF c = g.q THEN LET s == StrEnd(t, g, i + 1, FALSE, <<>>)
                       IN IF s[1] = 0 THEN <<"err", i>> ELSE lit(s[1], [k |-> "str", s |-> s[2]])
  ELSE
  LET ptr == g.ptr
      n == i + Len(ptr)
      ne == IF StartsAt(t, i, ptr) /\ n <= Len(t) /\ ~Digit(t[n]) THEN RunName(t, n) ELSE n
      isPtr == ne > n /\ ne <= Len(t) /\ t[ne] = 40
      me == IF Digit(c) THEN i ELSE RunName(t, i)
      fname == SubSeq(t, i, me - 1)
      isFun == me > i /\ me <= Len(t) /\ t[me] = 40 /\ fname \in FuncNames
      (* the special functions are outside the model *)
      isSp == me > i /\ me <= Len(t) /\ t[me] = 40 /\ StartsAt(fname, 1, C("sp_"))
  IN
  IF isPtr THEN LET r == LexArgs(t, g, ne + 1, <<>>)
                IN IF ~r.ok THEN <<"err", IF r.p = 0 THEN i ELSE r.p>>
                   ELSE <<"item", r.i, [k |-> "ptr", p |-> i, q |-> r.i, n |-> SubSeq(t, n, ne - 1), args |-> r.args]>>
  ELSE IF isSp THEN <<"unknown">>
  ELSE IF isFun THEN LET r == LexArgs(t, g, me + 1, <<>>)
                     IN IF ~r.ok THEN <<"err", IF r.p = 0 THEN i ELSE r.p>>
                        ELSE <<"item", r.i, [k |-> "fun", p |-> i, q |-> r.i, n |-> FuncName[fname], args |-> r.args]>>
  ELSE IF c = 44 /\ fl.func THEN <<"end", "fparam">>
  ELSE IF c = 41 /\ fl.func /\ ~fl.inner THEN <<"end", "func">>
  ELSE IF c = 40 THEN LET r == Lex(t, g, [fl EXCEPT !.inner = TRUE, !.ign = TRUE], i + 1, i + 1, <<>>, <<>>)
                      IN IF ~r.ok THEN <<"err", r.p>>
                         ELSE IF r.e # "paren" THEN <<"err", i>>
                         ELSE <<"item", r.i + 1, [k |-> "paren", p |-> i, q |-> r.i + 1, items |-> r.st[1].items]>>
  ELSE IF c = 41 THEN (IF fl.inner THEN <<"end", "paren">> ELSE <<"err", i>>)
  ELSE IF c = 123 THEN LET r == Lex(t, g, [fl EXCEPT !.inl = TRUE], i + 1, i + 1, <<>>, <<>>)
                       IN IF ~r.ok THEN <<"err", r.p>>
                          ELSE IF r.e # "inline" THEN <<"err", i>>
                          ELSE <<"item", r.i + 1, [k |-> "inl", p |-> i, q |-> r.i + 1, st |-> r.st]>>
  ELSE IF c = 125 THEN (IF fl.inl THEN <<"end", "inline">> ELSE <<"err", i>>)
  ELSE
  LET ae == RunAlpha(t, i)
      isCon == ae > i /\ SubSeq(t, i, ae - 1) \in DOMAIN Constants /\ (ae > Len(t) \/ ~Alpha(t[ae]))
      u == UnitAt(t, i, g.pref)
      sys == NamedAt(t, i, SystemNames)
      rep == NamedAt(t, i, Representations)
      vn == IF Digit(c) THEN i ELSE RunName(t, i)
  IN
  IF isCon THEN <<"item", ae, [k |-> "con", p |-> i, q |-> ae, v |-> Constants[SubSeq(t, i, ae - 1)]]>>
  ELSE IF u[1] > 0 THEN <<"item", i + u[1], [k |-> "unit", p |-> i, q |-> i + u[1],
                          u |-> [o |-> u[2].o, f |-> u[2].f, d |-> u[2].d, x |-> TRUE, q |-> "s", pin |-> FALSE]]>>
  ELSE IF sys # "" THEN <<"item", i + Len(C(sys)), [k |-> "word", p |-> i, q |-> i + Len(C(sys)), v |-> [k |-> "str", s |-> C(sys)]]>>
  ELSE IF rep # "" THEN <<"item", i + Len(C(rep)), [k |-> "word", p |-> i, q |-> i + Len(C(rep)), v |-> [k |-> "str", s |-> C(rep)]]>>
  ELSE IF StartsAt(t, i, g.arr.open)
       THEN LET r == LexElems(t, g, i + Len(g.arr.open), <<>>)
            IN IF ~r.ok THEN <<"err", IF r.p = 0 THEN i ELSE r.p>>
               ELSE <<"item", r.i, [k |-> "arr", p |-> i, q |-> r.i, els |-> r.els]>>
  ELSE IF fl.arr /\ StartsAt(t, i, g.arr.range) THEN <<"end", "range">>
  ELSE IF fl.arr /\ StartsAt(t, i, g.arr.step) THEN <<"end", "step">>
  ELSE IF fl.arr /\ StartsAt(t, i, g.arr.param) THEN <<"end", "aparam">>
  ELSE IF fl.arr /\ StartsAt(t, i, g.arr.close) THEN <<"end", "aend">>
  ELSE IF vn > i THEN <<"item", vn, [k |-> "var", p |-> i, q |-> vn, n |-> SubSeq(t, i, vn - 1)]>>
  ELSE <<"err", i>>

Lex(t, g, fl, i, a, cur, st) ==
  IF i > Len(t) THEN LexEnd("eof", i, Append(st, [a |-> a, b |-> i, items |-> cur]))
  ELSE IF ~fl.ign /\ StartsAt(t, i, g.tm) /\ ~StillWaiting(cur)
       THEN LET j == i + Len(g.tm) IN Lex(t, g, fl, j, j, <<>>, Append(st, [a |-> a, b |-> j, items |-> cur]))
  ELSE LET k == Token(t, g, fl, i, cur)
       IN CASE k[1] = "skip" -> Lex(t, g, fl, k[2], a, cur, st)
            [] k[1] = "item" -> Lex(t, g, fl, k[2], a, Append(cur, k[3]), st)
            [] k[1] = "end"  -> LexEnd(k[2], i, Append(st, [a |-> a, b |-> i, items |-> cur]))
            [] k[1] = "err"  -> LexErr(k[2])
            [] k[1] = "unknown" -> LexErr(-7)

(* arguments after an opening bracket; p = 0 says it is never closed        *)
LexArgs(t, g, i, args) ==
  IF i > Len(t) THEN LexErr(0)
  ELSE LET r == Lex(t, g, InFunc, i, i, <<>>, <<>>)
       IN IF ~r.ok THEN r
          ELSE LET more == IF r.st[1].items = <<>> THEN args ELSE Append(args, r.st[1].items)
               IN IF r.e = "func" THEN [ok |-> TRUE, i |-> r.i + 1, args |-> more]
                  ELSE LexArgs(t, g, r.i + 1, more)

LexElems(t, g, i, els) ==
  IF i > Len(t) THEN LexErr(0)
  ELSE LET r == Lex(t, g, InArr, i, i, <<>>, <<>>)
           sub(j) == Lex(t, g, InArr, j, j, <<>>, <<>>)
           next(r0, el) == IF r0.e = "aend" THEN [ok |-> TRUE, i |-> r0.i + Len(g.arr.close), els |-> Append(els, el)]
                           ELSE LexElems(t, g, IF r0.e = "aparam" THEN r0.i + Len(g.arr.param) ELSE r0.i, Append(els, el))
           it(x) == x.st[1].items
       IN IF ~r.ok THEN r
          ELSE IF r.i = i THEN LexErr(i)
          ELSE IF r.e # "range" THEN next(r, [e |-> it(r), n |-> 1])
          ELSE LET j == r.i + Len(g.arr.range)
                   r2 == sub(j)
               IN IF ~r2.ok THEN r2
                  ELSE IF r2.i = j THEN LexErr(j)
                  ELSE IF r2.e # "step" THEN next(r2, [e |-> it(r), n |-> 2, r |-> it(r2)])
                  ELSE LET k == r2.i + Len(g.arr.step)
                           r3 == sub(k)
                       IN IF ~r3.ok THEN r3
                          ELSE IF r3.i = k THEN next(r3, [e |-> it(r), n |-> 2, r |-> it(r2)])
                          ELSE next(r3, [e |-> it(r), n |-> 3, r |-> it(r2), s |-> it(r3)])

Parse(t, g) == IF t = <<>> THEN LexEnd("eof", 1, <<>>) ELSE Lex(t, g, Top, 1, 1, <<>>, <<>>)
=============================================================================
