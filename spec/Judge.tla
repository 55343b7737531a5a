-------------------------------- MODULE Judge --------------------------------
(* Does what the calculator was seen to do agree with the specification?    *)
(*                                                                          *)
(* A case is a history: a sequence of steps on one or more calculators, each *)
(* with what the implementation answered.  Walking through it drives the    *)
(* state machine of Session along the same steps; every disagreement is a   *)
(* pair <<step, kind of disagreement>>.                                     *)
EXTENDS Session

(* a configuration as recorded *)
Conf(j, files) == [cm |-> j.cm, tm |-> j.tm, q |-> j.q, es |-> j.es, ptr |-> j.ptr, pref |-> j.pref, simp |-> j.simp, arr |-> j.arr,
                   files |-> TLCEval([n \in {files[i][1] : i \in DOMAIN files} |-> files[CHOOSE i \in DOMAIN files : files[i][1] = n][2]])]

----------------------------------------------------------------------------
(* observed values *)
ObsRat(o) == IF o.n = <<>> THEN RZero ELSE [s |-> o.s, n |-> o.n, d |-> o.d]
(* a recorded unit: a sequence of <<name, power>>; o is "?" if not known    *)
Nm(w) == TLCEval([i \in DOMAIN w |-> Fold(w[i])])
ObsUnit(us) ==
  IF us = <<>> THEN UNone
  ELSE IF \E i \in DOMAIN us : us[i][2] = 0 \/ Nm(us[i][1]) \notin DOMAIN NameTab THEN [UNone EXCEPT !.o = "?"]
  ELSE LET e(i) == NameTab[Nm(us[i][1])]
           f == FoldLeft(LAMBDA acc, i : RMul(acc, RPow(e(i).f, us[i][2])), ROne, [i \in 1..Len(us) |-> i])
           d == FoldLeft(LAMBDA acc, i : DAdd(acc, DMul(e(i).d, us[i][2])), D0, [i \in 1..Len(us) |-> i])
       IN [o |-> IF Len(us) = 1 /\ us[1][2] = 1 THEN e(1).o ELSE IF IsTemp(d) THEN "x" ELSE "n",
           f |-> f, d |-> d, x |-> TRUE, q |-> "c", pin |-> FALSE]
(* 100 significant digits are all the calculator has: a quantity whose      *)
(* conversion used them up is only as exact as that                         *)
Spent(r) == DL(r.n) >= 99 \/ DL(r.d) >= 99
Near(a, b) == RLe(RAbs(RSub(a, b)), RMul(RAbs(b), RTen(-60)))
(* the implementation may simplify to fractional powers of units: the        *)
(* quantity is compared after raising it to the common denominator           *)
Fractional(us) == \E i \in DOMAIN us : Len(us[i]) = 3
Den(up) == IF Len(up) = 3 THEN up[3] ELSE 1
CommonDen(us) == FoldLeft(LAMBDA acc, i : IF acc % Den(us[i]) = 0 THEN acc ELSE acc * Den(us[i]), 1, [i \in 1..Len(us) |-> i])
FractionalMatch(m, o) ==
  LET us == o.u
      L == CommonDen(us)
      known == \A i \in DOMAIN us : us[i][2] # 0 /\ Nm(us[i][1]) \in DOMAIN NameTab
      e(i) == NameTab[Nm(us[i][1])]
      k(i) == us[i][2] * (L \div Den(us[i]))
      all == [i \in 1..Len(us) |-> i]
      f == FoldLeft(LAMBDA acc, i : RMul(acc, RPow(e(i).f, k(i))), ROne, all)
      d == FoldLeft(LAMBDA acc, i : DAdd(acc, DMul(e(i).d, k(i))), D0, all)
  IN IF m.k # "num" THEN {}
     ELSE IF ~known THEN {"unit"}
     ELSE IF Loose(m)      \* units of one dimension that need not have been cancelled
          THEN (IF d # D0 THEN {"unit"}
                ELSE IF L > 6 \/ (Near(RMul(RPow(ObsRat(o), L), f), RPow(m.r, L)) /\ ObsRat(o).s = m.r.s) THEN {} ELSE {"value"})
     ELSE IF m.u.o = "-" \/ Shown(m.u) \/ d # DMul(m.u.d, L) THEN {"unit"}
     ELSE IF L > 6 THEN {}
     ELSE IF Near(RMul(RPow(ObsRat(o), L), f), RPow(RMul(m.r, m.u.f), L)) /\ ObsRat(o).s = m.r.s THEN {} ELSE {"value"}
LowestTerms(o) ==   \* o.bz certifies: n * a = d * b + 1
  \/ o.n = <<>> /\ o.d = <<1>>
  \/ o.d = <<1>>
  \/ BMul(o.n, o.bz[1]) = BAddN(BMul(o.d, o.bz[2]), 1)

(* the printed text *)
TextIs(m, r, t) == LET p == PrintR(r, m.c, m.w) IN ~p[1] \/ p[2] = t

UnitMatch(u, w) == u.f = w.f /\ u.d = w.d /\ (u.o = w.o \/ ~IsTemp(u.d))
RECURSIVE Match(_, _, _)
(* model value m, observed o; fin: it is a final answer, not a variable     *)
Match(m, o, fin) ==
  CASE m.k = "any" -> {}
    [] m.k \in {"num", "apx"} /\ o.k = "num" /\ Fractional(o.u) -> FractionalMatch(m, o)
    [] m.k = "apx" /\ (o.k # "num" \/ ~Fractional(o.u)) ->
         IF o.k # "num" THEN {"kind"}
         ELSE LET w == ObsUnit(o.u)
              IN IF (m.u.o = "-") # (w.o = "-") THEN {"unit"}
                 ELSE IF m.u.o # "-" /\ w.d # m.u.d THEN {"unit"}
                 ELSE IF m.u.o # "-" /\ IsTemp(m.u.d) /\ m.u.o # w.o THEN {}
                 ELSE IF \E r \in {m.r} \cup m.others : RLe(RAbs(RSub(RMul(ObsRat(o), w.f), RMul(r, m.u.f))), RMul(m.tol, m.u.f)) THEN {} ELSE {"value"}
    [] m.k = "num" /\ (o.k # "num" \/ ~Fractional(o.u)) ->
         IF o.k # "num" THEN {"kind"}
         ELSE LET w == ObsUnit(o.u)
                  r == ObsRat(o)
                  exact == IF fin THEN Shown(m.u) ELSE m.u.x
                  val == IF exact THEN REq(r, m.r)
                         ELSE REq(RMul(r, w.f), RMul(m.r, m.u.f))
                              \/ (Spent(r) /\ Near(RMul(r, w.f), RMul(m.r, m.u.f)))
              IN IF w.o = "?" THEN {"unit"}
                 ELSE IF Loose(m)
                      THEN (IF w.o # "-" /\ w.d # D0 THEN {"unit"}
                            ELSE IF REq(RMul(r, w.f), m.r) \/ (Spent(r) /\ Near(RMul(r, w.f), m.r)) THEN {} ELSE {"value"})
                 ELSE IF (m.u.o = "-") # (w.o = "-") THEN {"unit"}
                 ELSE IF w.o # "-" /\ w.d # m.u.d THEN {"unit"}
                 ELSE IF exact /\ w.o # "-" /\ ~UnitMatch(m.u, w) THEN {"unit"}
                 ELSE IF ~exact /\ IsTemp(m.u.d) /\ m.u.o \in {"c", "f"} THEN {}
                 ELSE IF ~val THEN {"value"}
                 ELSE (IF TextIs(m, r, o.t) THEN {} ELSE {"text"}) \cup (IF LowestTerms(o) THEN {} ELSE {"form"})
    [] m.k = "bool" -> IF o.k # "bool" THEN {"kind"} ELSE IF o.b = m.b THEN {} ELSE {"value"}
    [] m.k = "str" -> IF o.k # "str" THEN {"kind"} ELSE IF o.t = m.s THEN {} ELSE {"value"}
    [] m.k = "arr" -> IF o.k # "arr" THEN {"kind"}
                      ELSE IF Len(o.e) # Len(m.e) THEN {"length"}
                      ELSE UNION {Match(m.e[i].v, o.e[i], fin) : i \in DOMAIN o.e}
    [] m.k = "unit" -> IF o.k # "unit" THEN {"kind"}
                       ELSE IF Fractional(o.u) THEN {"unit"} ELSE LET w == ObsUnit(o.u) IN IF w.o # "?" /\ UnitMatch(m.u, w) THEN {} ELSE {"unit"}
    [] OTHER -> IF o.k = m.k THEN {} ELSE {"kind"}

VarsMatch(vars, ovs) ==
  LET names == {ovs[i][1] : i \in DOMAIN ovs}
  IN IF names # DOMAIN vars \/ Cardinality(names) # Len(ovs) THEN {"vars"}
     ELSE IF \E i \in DOMAIN ovs : Match(vars[ovs[i][1]], ovs[i][2], FALSE) \ {"form"} # {} THEN {"vars"} ELSE {}

----------------------------------------------------------------------------
If(c, x) == IF c THEN {x} ELSE {}
ResultMatch(t, e, o, fl, any) ==
  If(o.x # SubSeq(t, e.a, e.b - 1), "expr")
  \cup If(o.i # o.x, "items")
  \cup (IF any THEN {}
        ELSE IF ~e.has THEN If(o.v.k # "none", "hasvalue")
        ELSE IF o.v.k = "none" THEN {"hasvalue"}
        ELSE Match(e.v, o.v, TRUE))
  \cup (IF any THEN {} ELSE IF fl.is THEN (IF o.sk THEN IF VarsMatch(e.vars, o.s) = {} THEN {} ELSE {"state"} ELSE {"state"}) ELSE If(o.sk, "state"))

Upto(rs, n) == SubSeq(rs, 1, BMin(n, Len(rs)))
(* e what the specification says of the call, o what was observed           *)
CallMatch(t, fl, e, o, S0) ==
  LET n == Len(e.rs)
      each == UNION {ResultMatch(t, e.rs[i], o.r[i], fl, FALSE) : i \in 1..BMin(n, Len(o.r))}
      prefixOk == o.k \in {"ok", "other", "slow"} \/ (Len(o.pre) <= Len(t) /\ o.pre = SubSeq(t, 1, Len(o.pre)))
      posOk == o.k \in {"ok", "other", "slow"} \/ o.pos = Len(o.pre)
      lossless == IF o.k = "ok" THEN If(o.it # t, "items") \cup If(o.hl # t, "highlight") ELSE {}
      general == If(~o.same, "mutated") \cup If(~prefixOk, "prefix") \cup If(~posOk, "position") \cup lossless \cup If(o.k = "other", "exception")
      varsOk == IF e.S.any THEN {} ELSE VarsMatch(e.S.v, o.vars)
  IN CASE o.k = "slow" -> IF e.k = "any" THEN {} ELSE {"exception"}
       [] o.k # "slow" /\ e.k = "any" ->
            general \cup each
            \cup If(e.st # <<>> /\ o.k = "parse", "outcome")
            \cup If(e.st # <<>> /\ o.k = "ok" /\ Len(o.r) # Len(e.st), "count")
            \cup If(e.st # <<>> /\ o.k = "exec" /\ Len(o.r) >= Len(e.st), "count")
            \cup If(e.i > 0 /\ o.k = "exec" /\ Len(o.r) < n, "outcome")
       [] o.k # "slow" /\ e.k = "ok" ->
            general \cup each \cup varsOk
            \cup If(o.k \in {"exec", "parse"}, "outcome")
            \cup If(o.k = "ok" /\ Len(o.r) # n, "count")
       [] o.k # "slow" /\ e.k = "parse" ->
            general \cup varsOk
            \cup If(o.k \in {"ok", "exec"}, "outcome")
            \cup (IF o.k = "parse" THEN If(o.pos # e.p - 1, "position") \cup If(o.r # <<>>, "count") ELSE {})
       [] o.k # "slow" /\ e.k = "exec" ->
            general \cup each \cup varsOk
            \cup If(o.k \in {"ok", "parse"}, "outcome")
            \cup (IF o.k = "exec"
                  THEN If(Len(o.r) # n, "count")
                       \cup If(IF e.p >= 1 THEN o.pos # e.p - 1
                               ELSE ~(o.pos >= e.st[e.i].a - 1 /\ o.pos <= e.st[e.i].b - 1), "position")
                  ELSE {})

----------------------------------------------------------------------------
(* the walk: cs the calculators [g, S], acc the disagreements found         *)
(* acc = <<disagreements, calls decided, calls not specified, outcomes>>    *)
RECURSIVE Walk(_, _, _, _)
Walk(steps, i, cs, acc) ==
  IF i > Len(steps) THEN acc
  ELSE LET s == steps[i]
           c == cs[s.c]
       IN CASE s.op = "calc" ->
                 LET e == CallText(c.g, c.S, s.t, s.fl)
                     ds == CallMatch(s.t, s.fl, e, s.obs, c.S)
                     out == IF e.k = "any" THEN "any" ELSE e.k
                 IN Walk(steps, i + 1, [cs EXCEPT ![s.c].S = e.S],
                         <<acc[1] \cup {<<i, d>> : d \in ds}, acc[2] + (IF e.k = "any" THEN 0 ELSE 1), acc[3] + (IF e.k = "any" THEN 1 ELSE 0), Append(acc[4], out)>>)
            [] s.op = "pref" -> Walk(steps, i + 1, [cs EXCEPT ![s.c].g = SetPref(c.g, s.pref)], acc)
            [] s.op = "simp" -> Walk(steps, i + 1, [cs EXCEPT ![s.c].g = SetSimp(c.g, s.on)], acc)
            [] s.op = "conf" -> Walk(steps, i + 1, [cs EXCEPT ![s.c].g = [Conf(s.cfg, <<>>) EXCEPT !.files = c.g.files]], acc)
JudgeCase(k) == Walk(k.steps, 1, TLCEval([c \in DOMAIN k.cfgs |-> [g |-> Conf(k.cfgs[c], k.files), S |-> NewState]]), <<{}, 0, 0, <<>>>>)
=============================================================================
