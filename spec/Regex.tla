-------------------------------- MODULE Regex --------------------------------
(* Regular expressions: a pattern is read into a tree, a tree matches a text *)
(* from a position in an order of preference (greedy or lazy, alternatives   *)
(* from the left), and the matches in a text are taken from the left without *)
(* overlap. A way to match is where it ends and what its groups captured.    *)
(* Left open: names of groups, conditions, flags inside, \x \u \N \0.        *)
EXTENDS Codes

RxOk(x, i) == [k |-> "ok", x |-> x, i |-> i]
RxBad == [k |-> "bad"]
RxOpen == [k |-> "open"]
ROne1(c) == [t |-> "set", neg |-> FALSE, rs |-> {<<c, c>>}, cls |-> {}]
RCls(l) == [t |-> "set", neg |-> FALSE, rs |-> {}, cls |-> {l}]
RAt(n) == [t |-> "at", n |-> n]
ClassLetters == {100, 119, 115, 68, 87, 83}        \* d w s D W S
OpenLetters == {120, 117, 85, 78}                  \* x u U N
RxLetter(c) == AlnumVal(c) \in 10..35
Controls == [c \in {97, 102, 110, 114, 116, 118} |-> CASE c = 97 -> 7 [] c = 102 -> 12 [] c = 110 -> NL [] c = 114 -> 13 [] c = 116 -> 9 [] c = 118 -> 11]
RECURSIVE RxNum(_, _, _)
RxNum(p, i, n) == IF i <= Len(p) /\ Digit(p[i]) /\ n < 1000 THEN RxNum(p, i + 1, n * 10 + p[i] - 48) ELSE <<i, n>>
RxMany == 100000
(* a repetition at i: [k none/ok/open/bad, lo, hi, i] and how: greedy, lazy or possessive *)
RxHow(lo, hi, p, i) == [k |-> "ok", lo |-> lo, hi |-> hi, how |-> (IF i > Len(p) THEN "g" ELSE IF p[i] = 63 THEN "l" ELSE IF p[i] = 43 THEN "p" ELSE "g"),
                        i |-> (IF i <= Len(p) /\ p[i] \in {63, 43} THEN i + 1 ELSE i)]
RxQuant(p, i) ==
  IF i > Len(p) THEN [k |-> "none"]
  ELSE CASE p[i] = 42 -> RxHow(0, RxMany, p, i + 1)
         [] p[i] = 43 -> RxHow(1, RxMany, p, i + 1)
         [] p[i] = 63 -> RxHow(0, 1, p, i + 1)
         [] p[i] = 123 -> LET a == RxNum(p, i + 1, 0)
                              j == a[1]
                              two == j <= Len(p) /\ p[j] = 44
                              b == IF two THEN RxNum(p, j + 1, 0) ELSE a
                              e == b[1]
                              hi == IF two /\ e = j + 1 THEN RxMany ELSE b[2]
                          IN IF e > Len(p) \/ e = i + 1 THEN [k |-> "none"]
                             ELSE IF a[2] > 200 \/ (hi # RxMany /\ hi > 200) THEN [k |-> "open"]
                             ELSE IF p[e] # 125 THEN [k |-> "none"]
                             ELSE IF hi < a[2] THEN [k |-> "bad"]
                             ELSE RxHow(a[2], hi, p, e + 1)
         [] OTHER -> [k |-> "none"]
(* inside [ ]: one member at i, <<kind, code or letter, next>> *)
RxMember(p, i) ==
  IF p[i] = 92 THEN (IF i = Len(p) THEN <<"bad">>
                     ELSE LET c == p[i + 1]
                          IN IF c \in ClassLetters THEN <<"class", c, i + 2>>
                             ELSE IF c \in DOMAIN Controls THEN <<"code", Controls[c], i + 2>>
                             ELSE IF c = 98 THEN <<"code", 8, i + 2>>
                             ELSE IF c \in OpenLetters \/ Digit(c) THEN <<"open">>
                             ELSE IF RxLetter(c) THEN <<"bad">>
                             ELSE <<"code", c, i + 2>>)
  ELSE <<"code", p[i], i + 1>>
RECURSIVE RxClass(_, _, _, _, _)
RxClass(p, i, first, rs, cls) ==
  IF i > Len(p) THEN RxBad
  ELSE IF p[i] = 93 /\ ~first THEN [k |-> "ok", rs |-> rs, cls |-> cls, i |-> i + 1]
  ELSE LET m == RxMember(p, i)
       IN IF m[1] = "bad" THEN RxBad
          ELSE IF m[1] = "open" THEN RxOpen
          ELSE IF m[3] < Len(p) /\ p[m[3]] = 45 /\ p[m[3] + 1] # 93
               THEN LET n == RxMember(p, m[3] + 1)
                    IN IF n[1] = "bad" THEN RxBad
                       ELSE IF n[1] = "open" THEN RxOpen
                       ELSE IF m[1] = "class" \/ n[1] = "class" THEN RxBad
                       ELSE IF n[2] < m[2] THEN RxBad
                       ELSE RxClass(p, n[3], FALSE, rs \cup {<<m[2], n[2]>>}, cls)
          ELSE IF m[1] = "class" THEN RxClass(p, m[3], FALSE, rs, cls \cup {m[2]})
          ELSE RxClass(p, m[3], FALSE, rs \cup {<<m[2], m[2]>>}, cls)
RxKids(x) == CASE x.t \in {"cat", "alt"} -> x.xs [] x.t \in {"rep", "cap", "look", "atomic"} -> <<x.x>> [] OTHER -> <<>>
RECURSIVE RxNodes(_)     \* every part of the tree, in the order of the text
RxNodes(x) == <<x>> \o FlattenSeq(TLCEval([i \in DOMAIN RxKids(x) |-> RxNodes(RxKids(x)[i])]))
(* the least and greatest number of characters it can match *)
RECURSIVE RxWidth(_)
RxWidth(x) ==
  LET ws == TLCEval([i \in DOMAIN RxKids(x) |-> RxWidth(RxKids(x)[i])])
  IN CASE x.t \in {"set", "dot"} -> <<1, 1>>
       [] x.t \in {"at", "look"} -> <<0, 0>>
       [] x.t = "cat" -> FoldLeft(LAMBDA acc, w : <<acc[1] + w[1], (IF acc[2] + w[2] < RxMany THEN acc[2] + w[2] ELSE RxMany)>>, <<0, 0>>, ws)
       [] x.t = "alt" -> FoldLeft(LAMBDA acc, w : <<(IF acc[1] < w[1] THEN acc[1] ELSE w[1]), IF acc[2] < w[2] THEN w[2] ELSE acc[2]>>, ws[1], ws)
       [] x.t = "rep" -> <<x.lo * ws[1][1], IF ws[1][2] = 0 \/ x.hi = 0 THEN 0 ELSE IF x.hi = RxMany \/ ws[1][2] = RxMany THEN RxMany ELSE x.hi * ws[1][2]>>
       [] x.t \in {"cap", "atomic"} -> ws[1]
       [] OTHER -> <<0, RxMany>>
RECURSIVE RxAlt(_, _, _), RxSeq(_, _, _), RxAtom(_, _)
RxAlt(p, i, acc) ==
  LET r == RxSeq(p, i, <<>>)
  IN IF r.k # "ok" THEN r
     ELSE IF r.i <= Len(p) /\ p[r.i] = 124 THEN RxAlt(p, r.i + 1, Append(acc, r.x))
     ELSE RxOk([t |-> "alt", xs |-> Append(acc, r.x)], r.i)
RxSeq(p, i, acc) ==
  IF i > Len(p) \/ p[i] \in {124, 41} THEN RxOk([t |-> "cat", xs |-> acc], i)
  ELSE LET a == RxAtom(p, i)
       IN IF a.k # "ok" THEN a
          ELSE LET q == RxQuant(p, a.i)
               IN CASE q.k = "none" -> RxSeq(p, a.i, Append(acc, a.x))
                    [] q.k = "open" -> RxOpen
                    [] q.k = "bad" -> RxBad
                    [] q.k = "ok" -> IF a.x.t = "at" THEN RxBad
                                     ELSE IF RxQuant(p, q.i).k = "ok" THEN RxBad
                                     ELSE RxSeq(p, q.i, Append(acc, [t |-> "rep", x |-> a.x, lo |-> q.lo, hi |-> q.hi, how |-> q.how]))
RxAtom(p, i) ==
  LET c == p[i]
      at(j) == IF j <= Len(p) THEN p[j] ELSE 0
      inner(j, w(_, _)) == LET r == RxAlt(p, j, <<>>)
                           IN IF r.k # "ok" THEN r
                              ELSE IF r.i > Len(p) THEN RxBad
                              ELSE RxOk(w(r.x, r.i), r.i + 1)
      look(x, neg, back) == [t |-> "look", x |-> x, neg |-> neg, back |-> back]
  IN CASE c \in {42, 43, 63} -> RxBad
       [] c = 123 -> LET q == RxQuant(p, i) IN IF q.k = "none" THEN RxOk(ROne1(c), i + 1) ELSE IF q.k = "open" THEN RxOpen ELSE RxBad
       [] c = 40 -> IF at(i + 1) # 63 THEN inner(i + 1, LAMBDA x, e : [t |-> "cap", x |-> x, at |-> i, to |-> e])
                    ELSE CASE at(i + 2) = 58 -> inner(i + 3, LAMBDA x, e : x)
                           [] at(i + 2) = 62 -> inner(i + 3, LAMBDA x, e : [t |-> "atomic", x |-> x])
                           [] at(i + 2) = 61 -> inner(i + 3, LAMBDA x, e : look(x, FALSE, FALSE))
                           [] at(i + 2) = 33 -> inner(i + 3, LAMBDA x, e : look(x, TRUE, FALSE))
                           [] at(i + 2) = 60 /\ at(i + 3) = 61 -> inner(i + 4, LAMBDA x, e : look(x, FALSE, TRUE))
                           [] at(i + 2) = 60 /\ at(i + 3) = 33 -> inner(i + 4, LAMBDA x, e : look(x, TRUE, TRUE))
                           [] OTHER -> RxOpen
       [] c = 91 -> LET neg == at(i + 1) = 94
                        r == RxClass(p, IF neg THEN i + 2 ELSE i + 1, TRUE, {}, {})
                    IN IF r.k # "ok" THEN r ELSE RxOk([t |-> "set", neg |-> neg, rs |-> r.rs, cls |-> r.cls], r.i)
       [] c = 92 -> LET d == at(i + 1)
                    IN IF i = Len(p) THEN RxBad
                       ELSE IF d \in ClassLetters THEN RxOk(RCls(d), i + 2)
                       ELSE IF d \in DOMAIN Controls THEN RxOk(ROne1(Controls[d]), i + 2)
                       ELSE IF d = 65 THEN RxOk(RAt("start"), i + 2)
                       ELSE IF d = 90 THEN RxOk(RAt("end"), i + 2)
                       ELSE IF d = 98 THEN RxOk(RAt("edge"), i + 2)
                       ELSE IF d = 66 THEN RxOk(RAt("noedge"), i + 2)
                       ELSE IF d \in OpenLetters \/ d = 48 \/ (Digit(d) /\ Digit(at(i + 2))) THEN RxOpen
                       ELSE IF Digit(d) THEN RxOk([t |-> "ref", n |-> d - 48, at |-> i], i + 2)
                       ELSE IF RxLetter(d) THEN RxBad
                       ELSE RxOk(ROne1(d), i + 2)
       [] c = 46 -> RxOk([t |-> "dot"], i + 1)
       [] c = 94 -> RxOk(RAt("bol"), i + 1)
       [] c = 36 -> RxOk(RAt("eol"), i + 1)
       [] OTHER -> RxOk(ROne1(c), i + 1)
(* flags that stand first: (?i), (?s), (?m) *)
RECURSIVE RxFlags(_, _, _)
RxFlags(p, i, fs) == IF i > Len(p) THEN <<1, {}>>
                     ELSE IF p[i] = 41 THEN (IF fs = {} THEN <<1, {}>> ELSE <<i + 1, fs>>)
                     ELSE IF p[i] \in {105, 109, 115} THEN RxFlags(p, i + 1, fs \cup {p[i]})
                     ELSE <<1, {}>>
(* the pattern: its tree with dots and groups filled in, or bad, or open *)
RECURSIVE RxFill(_, _, _)
RxFill(x, fl, gs) ==
  CASE x.t \in {"cat", "alt"} -> [x EXCEPT !.xs = TLCEval([i \in DOMAIN x.xs |-> RxFill(x.xs[i], fl, gs)])]
    [] x.t = "cap" -> [t |-> "cap", x |-> RxFill(x.x, fl, gs), n |-> CHOOSE n \in DOMAIN gs : gs[n].at = x.at]
    [] x.t \in {"rep", "atomic"} -> [x EXCEPT !.x = RxFill(x.x, fl, gs)]
    [] x.t = "look" -> [t |-> "look", neg |-> x.neg, back |-> x.back, w |-> RxWidth(x.x)[1], x |-> RxFill(x.x, fl, gs)]
    [] x.t = "dot" -> [t |-> "set", neg |-> TRUE, rs |-> IF 115 \in fl THEN {} ELSE {<<NL, NL>>}, cls |-> {}]
    [] x.t = "at" -> [t |-> "at", n |-> IF 109 \in fl /\ x.n \in {"bol", "eol"} THEN (IF x.n = "bol" THEN "line" ELSE "lineend") ELSE x.n]
    [] x.t = "set" -> IF 105 \in fl THEN [t |-> "iset", neg |-> x.neg, rs |-> x.rs, cls |-> x.cls] ELSE x
    [] x.t = "ref" -> [t |-> "ref", n |-> x.n, ic |-> 105 \in fl]
    [] OTHER -> x
RxParse(p) ==
  LET fl == IF Len(p) > 2 /\ p[1] = 40 /\ p[2] = 63 THEN RxFlags(p, 3, {}) ELSE <<1, {}>>
      r == RxAlt(p, fl[1], <<>>)
      ns == TLCEval(RxNodes(r.x))
      gs == TLCEval(SelectSeq(ns, LAMBDA y : y.t = "cap"))
  IN IF r.k # "ok" THEN r
     ELSE IF r.i <= Len(p) THEN RxBad
     ELSE IF \E j \in DOMAIN ns : ns[j].t = "ref" /\ ~(ns[j].n \in DOMAIN gs /\ gs[ns[j].n].to < ns[j].at) THEN RxBad
     ELSE IF \E j \in DOMAIN ns : ns[j].t = "look" /\ ns[j].back /\ \E k \in DOMAIN RxNodes(ns[j].x) : RxNodes(ns[j].x)[k].t = "ref" THEN RxOpen
     ELSE IF \E j \in DOMAIN ns : ns[j].t = "look" /\ ns[j].back /\ RxWidth(ns[j].x)[1] # RxWidth(ns[j].x)[2] THEN RxBad
     ELSE [k |-> "ok", x |-> RxFill(r.x, fl[2], gs), g |-> Len(gs),
           plain |-> (fl[2] \cap {105}) = {} /\ \A j \in DOMAIN ns : ~(ns[j].t = "set" /\ ns[j].cls # {}) /\ ~(ns[j].t = "at" /\ ns[j].n \in {"edge", "noedge"})]

RxWordish(c) == AlnumVal(c) < 36 \/ c = 95
RxIn(l, c) == CASE l = 100 -> Digit(c) [] l = 68 -> ~Digit(c)
                [] l = 119 -> RxWordish(c) [] l = 87 -> ~RxWordish(c)
                [] l = 115 -> c \in {32} \cup 9..13 \cup 28..31 [] l = 83 -> c \notin {32} \cup 9..13 \cup 28..31
RxHas(x, c) == (\E r \in x.rs : c >= r[1] /\ c <= r[2]) \/ (\E l \in x.cls : RxIn(l, c))
RxSwap(c) == IF c \in 97..122 THEN c - 32 ELSE IF c \in 65..90 THEN c + 32 ELSE c
RxSetHas(x, c) == IF x.t = "set" THEN RxHas(x, c) # x.neg ELSE (RxHas(x, c) \/ RxHas(x, RxSwap(c))) # x.neg
RxAt(n, s, i) ==
  LET before == i > 1 /\ RxWordish(s[i - 1])
      after == i <= Len(s) /\ RxWordish(s[i])
  IN CASE n \in {"bol", "start"} -> i = 1
       [] n = "line" -> i = 1 \/ s[i - 1] = NL
       [] n = "end" -> i = Len(s) + 1
       [] n = "eol" -> i = Len(s) + 1 \/ (i = Len(s) /\ s[i] = NL)
       [] n = "lineend" -> i = Len(s) + 1 \/ s[i] = NL
       [] n = "edge" -> before # after
       [] n = "noedge" -> s # <<>> /\ before = after
RxFirsts(ps) == FoldLeft(LAMBDA acc, e : IF \E j \in DOMAIN acc : acc[j] = e THEN acc ELSE Append(acc, e), <<>>, ps)
RxHead(ps) == IF ps = <<>> THEN <<>> ELSE <<ps[1]>>
RxSame(a, b, ic) == Len(a) = Len(b) /\ \A k \in DOMAIN a : a[k] = b[k] \/ (ic /\ RxSwap(a[k]) = b[k])
(* the ways to match from a way w (where it is and what was captured), the preferred first *)
RxWay(i, c) == [i |-> i, c |-> c]
RECURSIVE RxWays(_, _, _), RxCat(_, _, _, _), RxRep(_, _, _, _, _, _)
RxWays(x, s, w) ==
  CASE x.t \in {"set", "iset"} -> IF w.i <= Len(s) /\ RxSetHas(x, s[w.i]) THEN <<RxWay(w.i + 1, w.c)>> ELSE <<>>
    [] x.t = "at" -> IF RxAt(x.n, s, w.i) THEN <<w>> ELSE <<>>
    [] x.t = "cat" -> RxCat(x.xs, 1, s, <<w>>)
    [] x.t = "alt" -> RxFirsts(FlattenSeq(TLCEval([k \in DOMAIN x.xs |-> RxWays(x.xs[k], s, w)])))
    [] x.t = "cap" -> LET ws == TLCEval(RxWays(x.x, s, w)) IN TLCEval([k \in DOMAIN ws |-> RxWay(ws[k].i, [ws[k].c EXCEPT ![x.n] = <<w.i, ws[k].i>>])])
    [] x.t = "rep" -> RxRep(x, s, w, x.lo, x.hi, 0)
    [] x.t = "atomic" -> RxHead(RxWays(x.x, s, w))
    [] x.t = "look" -> LET ws == IF ~x.back THEN RxWays(x.x, s, w) ELSE IF w.i - x.w < 1 THEN <<>> ELSE RxWays(x.x, s, RxWay(w.i - x.w, w.c))
                       IN IF x.neg THEN (IF ws = <<>> THEN <<w>> ELSE <<>>) ELSE (IF ws = <<>> THEN <<>> ELSE <<RxWay(w.i, ws[1].c)>>)
    [] x.t = "ref" -> IF w.c[x.n] = <<0, 0>> THEN <<>>
                      ELSE LET t == SubSeq(s, w.c[x.n][1], w.c[x.n][2] - 1)
                           IN IF w.i + Len(t) - 1 <= Len(s) /\ RxSame(t, SubSeq(s, w.i, w.i + Len(t) - 1), x.ic) THEN <<RxWay(w.i + Len(t), w.c)>> ELSE <<>>
RxCat(xs, k, s, ws) == IF k > Len(xs) \/ ws = <<>> THEN ws
                       ELSE RxCat(xs, k + 1, s, RxFirsts(FlattenSeq(TLCEval([j \in DOMAIN ws |-> RxWays(xs[k], s, ws[j])]))))
(* a further turn is not tried where the last optional one began: it matched nothing *)
RxRep(x, s, w, lo, hi, last) ==
  LET once == RxWays(x.x, s, w)
      es == IF hi = 0 \/ (lo = 0 /\ w.i = last) THEN <<>> ELSE IF x.how = "p" THEN RxHead(once) ELSE once
      more == FlattenSeq(TLCEval([j \in DOMAIN es |-> RxRep(x, s, es[j], (IF lo > 0 THEN lo - 1 ELSE 0), (IF hi = RxMany THEN hi ELSE hi - 1), IF lo > 0 THEN last ELSE w.i)]))
  IN CASE x.how = "p" -> IF lo > 0 \/ es # <<>> THEN RxHead(more) ELSE <<w>>
       [] x.how = "l" -> RxFirsts(IF lo = 0 THEN <<w>> \o more ELSE more)
       [] x.how = "g" -> RxFirsts(IF lo = 0 THEN Append(more, w) ELSE more)
(* the first match from i on, [a from, i to, c captured] or nothing; not an empty one at i if adv *)
RECURSIVE RxFrom(_, _, _, _), RxAll(_, _, _, _)
RxFrom(x, s, i, adv) ==
  IF i > Len(s) + 1 THEN <<>>
  ELSE LET es == SelectSeq(RxWays(x.x, s, RxWay(i, TLCEval([n \in 1..x.g |-> <<0, 0>>]))), LAMBDA e : ~adv \/ e.i # i)
       IN IF es # <<>> THEN <<[a |-> i, i |-> es[1].i, c |-> es[1].c]>> ELSE RxFrom(x, s, i + 1, FALSE)
RxAll(x, s, i, adv) ==
  LET m == RxFrom(x, s, i, adv)
  IN IF m = <<>> THEN <<>> ELSE m \o RxAll(x, s, m[1].i, m[1].a = m[1].i)
RxText(s, m) == SubSeq(s, m.a, m.i - 1)
RxGroups(s, m) == TLCEval([n \in DOMAIN m.c |-> IF m.c[n] = <<0, 0>> THEN <<>> ELSE SubSeq(s, m.c[n][1], m.c[n][2] - 1)])
(* the texts between the matches *)
RxGap(s, ms, k) == SubSeq(s, IF k = 1 THEN 1 ELSE ms[k - 1].i, IF k > Len(ms) THEN Len(s) ELSE ms[k].a - 1)
(* a replacement read into pieces: texts and numbers of groups; bad; open *)
RECURSIVE RxTemplate(_, _, _, _)
RxTemplate(p, i, g, acc) ==
  IF i > Len(p) THEN [k |-> "ok", xs |-> acc]
  ELSE IF p[i] # 92 THEN RxTemplate(p, i + 1, g, Append(acc, <<"text", <<p[i]>> >>))
  ELSE IF i = Len(p) THEN RxBad
  ELSE LET d == p[i + 1]
       IN IF d = 92 THEN RxTemplate(p, i + 2, g, Append(acc, <<"text", <<92>> >>))
          ELSE IF d \in DOMAIN Controls \/ d = 98 THEN RxTemplate(p, i + 2, g, Append(acc, <<"text", <<IF d = 98 THEN 8 ELSE Controls[d]>> >>))
          ELSE IF d = 103 \/ d = 48 \/ (Digit(d) /\ i + 2 <= Len(p) /\ Digit(p[i + 2])) THEN RxOpen
          ELSE IF Digit(d) THEN (IF d - 48 > g THEN RxBad ELSE RxTemplate(p, i + 2, g, Append(acc, <<"group", d - 48>>)))
          ELSE IF RxLetter(d) THEN RxBad
          ELSE RxTemplate(p, i + 2, g, Append(acc, <<"text", <<92, d>> >>))
RxPut(s, m, xs) == FlattenSeq(TLCEval([k \in DOMAIN xs |-> IF xs[k][1] = "text" THEN xs[k][2] ELSE RxGroups(s, m)[xs[k][2]]]))
RxSub(s, ms, xs) == FlattenSeq(TLCEval([k \in 1..(Len(ms) + 1) |-> RxGap(s, ms, k) \o (IF k > Len(ms) THEN <<>> ELSE RxPut(s, ms[k], xs))]))
=============================================================================
