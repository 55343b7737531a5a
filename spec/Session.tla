------------------------------- MODULE Session -------------------------------
(* The calculator as a state machine.  Its state is the variables; its      *)
(* transitions are calls of calculate with a text and flags, and changes of *)
(* configuration.  Several calculators are several independent copies.      *)
EXTENDS Eval

NewState == [v |-> EmptyVars, any |-> FALSE]
Flags0 == [po |-> FALSE, sl |-> FALSE, is |-> FALSE]

(* One statement's result: its text is t[a..b-1]; has says it has a value.  *)
Res(st, has, v, vars) == [a |-> st.a, b |-> st.b, has |-> has, v |-> v, vars |-> vars]

(* a text in which no variable can change: it neither assigns nor deletes    *)
Harmless(t) ==
  /\ \A i \in DOMAIN t :
       /\ t[i] = 61 => (i > 1 /\ t[i - 1] \in {33, 60, 61, 62}) \/ (i < Len(t) /\ t[i + 1] \in {61, 126})
       /\ t[i] \in {43, 45} => i = Len(t) \/ t[i + 1] # t[i]
       /\ t[i] \in {68, 100} => i + 5 > Len(t) \/ LowerStr(SubSeq(t, i, i + 5)) # C("delete")
       /\ t[i] \in {82, 114} => i + 4 > Len(t) \/ LowerStr(SubSeq(t, i, i + 4)) # C("reset")

(* the statements one after the other; k is "ok", "exec" (p where it is     *)
(* reported, i the failing statement), "any" from statement i on            *)
RECURSIVE Run(_, _, _, _, _, _)
Run(g, S, st, i, fl, rs) ==
  IF i > Len(st) THEN [S |-> S, k |-> "ok", p |-> 0, i |-> i, rs |-> rs]
  ELSE IF st[i].items = <<>> \/ fl.po THEN Run(g, S, st, i + 1, fl, Append(rs, Res(st[i], FALSE, NilV, S.v)))
  ELSE LET r == Eval(g, S, st[i].items, [sl |-> fl.sl, dep |-> 0])
           o == r[2]
       IN IF r[1].any \/ DeepAny(o.v) THEN [S |-> [r[1] EXCEPT !.any = TRUE], k |-> "any", p |-> 0, i |-> i, rs |-> rs, before |-> S]
          ELSE IF IsErr(o) THEN [S |-> r[1], k |-> "exec", p |-> o.v.p, i |-> i, rs |-> rs]
          ELSE Run(g, r[1], st, i + 1, fl, Append(rs, Res(st[i], TRUE, IF g.simp THEN Final(o.v) ELSE o.v, r[1].v)))

(* A call: the state after it and what it answers. *)
CallText(g, S, t, fl) ==
  LET p == Parse(t, g)
  IN IF ~p.ok /\ p.p = -7 THEN [S |-> [S EXCEPT !.any = TRUE], k |-> "any", p |-> 0, i |-> 0, rs |-> <<>>, st |-> <<>>]
     ELSE IF ~p.ok THEN [S |-> S, k |-> "parse", p |-> p.p, i |-> 0, rs |-> <<>>, st |-> <<>>]
     ELSE IF S.any THEN [S |-> S, k |-> "any", p |-> 0, i |-> 0, rs |-> <<>>, st |-> p.st]
     ELSE LET r == Run(g, S, p.st, 1, fl, <<>>)
          IN [S |-> IF r.k = "any" /\ Harmless(SubSeq(t, p.st[r.i].a, Len(t))) THEN r.before ELSE r.S, k |-> r.k, p |-> r.p, i |-> r.i, rs |-> r.rs, st |-> p.st]

(* Changing the configuration of a calculator leaves its variables alone.   *)
SetPref(g, order) == [g EXCEPT !.pref = order]
SetSimp(g, on) == [g EXCEPT !.simp = on]
=============================================================================
