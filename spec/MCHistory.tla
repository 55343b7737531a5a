----------------------------- MODULE MCHistory -----------------------------
(* The calculator as a transition system: every sequence of calls, in every *)
(* mode, on one or several calculators.  A state is the history and what    *)
(* each calculator then holds; the laws speak about the last call.          *)
EXTENDS Enumerate

NCalc == Env("CALCS", 1)
Depth == IF Deep = 1 THEN 4 ELSE 3
(* of the histories one step shorter than the longest, one in Thin goes on   *)
Thin == IF Deep = 1 THEN 10 ELSE Env("THIN", 5 * NCalc)
(* t the text; b variables that brackets inside may still change if it      *)
(* fails; iso: nothing but calls of functions, asg: nothing but = and ||=   *)
K(t, b, iso, asg) == [t |-> t, b |-> b, iso |-> iso, asg |-> asg]
X == C("x")
Y == C("y")
F == C("f")
Calls == <<
  K(C("x = 3"), {}, FALSE, TRUE),
  K(C("y = x"), {}, FALSE, TRUE),
  K(C("x ||= 5 m"), {}, FALSE, TRUE),
  K(C("x ++"), {}, FALSE, FALSE),
  K(C("y += x"), {}, FALSE, FALSE),
  K(C("(y = 4) + abs(1 / 0)"), {Y}, FALSE, FALSE),
  K(C("x *= (y = 2)"), {Y}, FALSE, FALSE),
  K(C("delete(x)"), {}, FALSE, FALSE),
  K(C("reset()"), {}, FALSE, FALSE),
  K(JoinNL(<<C("f = {x = PARAM1"), C("y = x + 1"), C("y / PARAM2}")>>), {}, FALSE, TRUE),
  K(C("f = {PARAM1 + x}"), {}, FALSE, TRUE),
  K(C("f = {true then PARAM1 else @f(PARAM1)}"), {}, FALSE, TRUE),
  K(C("f = 'add'"), {}, FALSE, TRUE),
  K(C("@f(7, 2)"), {}, TRUE, FALSE),
  K(C("@f(y, 0)"), {}, TRUE, FALSE),
  K(C("[@f(x, 1), x]"), {}, TRUE, FALSE),
  K(C("@f([1, 2], 3)"), {}, TRUE, FALSE),
  K(JoinNL(<<C("x = 1"), C("x"), C(" "), C("y = 2 s # c")>>), {}, FALSE, TRUE),
  K(JoinNL(<<C("y = 6"), C("'a' - 1"), C("y = 8")>>), {Y}, FALSE, FALSE),
  K(JoinNL(<<C("x = "), C("2"), C("+"), C("(y = 5)")>>), {X, Y}, FALSE, FALSE),
  K(JoinNL(<<C("y"), C("x +")>>), {}, FALSE, TRUE),
  K(JoinNL(<<C("x = 9"), C("5 )")>>), {}, FALSE, TRUE),
  K(C("[(x = 1), y, (y = 2), x]"), {X, Y}, FALSE, FALSE),
  K(C("x -= (x = 9)"), {X}, FALSE, FALSE),
  K(C("nope + 1"), {}, TRUE, TRUE),
  K(C("x = [x, 0b10]"), {}, FALSE, TRUE) >>
Modes == <<Flags0, Flag(TRUE, FALSE, FALSE), Flag(FALSE, TRUE, FALSE), Flag(FALSE, FALSE, TRUE)>>
ModeNo == <<0, 1, 2, 4>>
FileAdd == JoinNL(<<C("#INPUT number number"), C("x = PARAM1"), C("PARAM1 + PARAM2")>>)
GF == TLCEval([G0 EXCEPT !.files = (C("add") :> FileAdd)])

VARIABLES hist, now, last
vars == <<hist, now, last>>
None == [S |-> NewState, k |-> "ok", p |-> 0, i |-> 0, rs |-> <<>>, st |-> <<>>]
Mix(h) == FoldLeft(LAMBDA acc, e : (acc * 31 + e[1] * 7 + e[2] * 13 + e[3]) % 10007, SeedNo, h)
Init == hist = <<>> /\ now = [c \in 1..NCalc |-> NewState] /\ last = [before |-> NewState, r |-> None]
Step(c, m, i) ==
  LET h == Append(hist, <<c, m, i>>)
      r == CallText(GF, now[c], Calls[i].t, Modes[m])
  IN /\ Len(hist) < Depth
     /\ Len(h) = Depth => Mix(h) % Part = 0
     /\ Len(h) = Depth - 1 => Mix(h) % Thin = 0
     /\ hist' = h
     /\ now' = [now EXCEPT ![c] = r.S]
     /\ last' = [before |-> now[c], r |-> r]
     /\ Len(h) = Depth /\ (Mix(h) \div Part) % Stride = 0 => PrintT("T " \o ToJson([files |-> << <<C("add"), FileAdd>> >>, calcs |-> NCalc,
                             steps |-> [j \in DOMAIN h |-> <<h[j][1], ModeNo[h[j][2]], Calls[h[j][3]].t>>]]))
Next == \E c \in 1..NCalc, m \in DOMAIN Modes, i \in DOMAIN Calls : Step(c, m, i)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
It == hist[Len(hist)]
What == Calls[It[3]]
Known == hist # <<>> /\ last.r.k # "any" /\ ~last.before.any
Val(S, n) == IF n \in DOMAIN S.v THEN S.v[n] ELSE [v |-> NilV]
SameState(A, B) == \A n \in DOMAIN A.v \cup DOMAIN B.v : Val(A, n) = Val(B, n)
(* parse_only and parse failures execute nothing *)
ParseOnlyIsPure == Known /\ (It[2] = 2 \/ last.r.k = "parse") =>
                     SameState(last.before, last.r.S) /\ \A i \in DOMAIN last.r.rs : ~last.r.rs[i].has
(* with stateless, = and ||= leave the variables alone *)
StatelessIsPure == Known /\ It[2] = 3 /\ What.asg => SameState(last.before, last.r.S)
(* a call of a function never touches a variable of the caller *)
CallsAreIsolated == Known /\ What.iso => SameState(last.before, last.r.S)
(* the statements before the failing one took effect, later ones did not,   *)
(* the failing one only through its brackets                                *)
Texts(r) == [i \in DOMAIN r.st |-> SubSeq(What.t, r.st[i].a, IF What.t[BMax(r.st[i].b - 1, 1)] = NL THEN r.st[i].b - 2 ELSE r.st[i].b - 1)]
Upto2(r, n) == IF n = 0 THEN last.before ELSE CallText(GF, last.before, JoinNL(SubSeq(Texts(r), 1, n)), Modes[It[2]]).S
FailureKeepsTheRest ==
  Known /\ last.r.k = "exec" =>
    LET kept == Upto2(last.r, last.r.i - 1)
    IN /\ Len(last.r.rs) = last.r.i - 1
       /\ \A n \in (DOMAIN kept.v \cup DOMAIN last.r.S.v) \ What.b : Val(kept, n) = Val(last.r.S, n)
(* the statements one by one answer what they answer together *)
RECURSIVE OneByOne(_, _, _, _)
OneByOne(S, ts, m, acc) ==
  IF ts = <<>> THEN <<S, acc>>
  ELSE LET r == CallText(GF, S, Head(ts), m)
       IN IF r.k # "ok" THEN <<r.S, acc>> ELSE OneByOne(r.S, Tail(ts), m, acc \o [i \in DOMAIN r.rs |-> <<r.rs[i].has, r.rs[i].v>>])
TogetherIsOneByOne ==
  Known /\ last.r.k \in {"ok", "exec"} /\ It[2] \in {1, 4} =>
    LET o == OneByOne(last.before, Texts(last.r), Modes[It[2]], <<>>)
    IN SameState(o[1], last.r.S) /\ o[2] = [i \in DOMAIN last.r.rs |-> <<last.r.rs[i].has, last.r.rs[i].v>>]
(* include_state shows the variables right after each statement *)
StateIsShown == Known /\ last.r.k = "ok" /\ It[2] = 4 =>
                  \A i \in DOMAIN last.r.rs : last.r.rs[i].vars = Upto2(last.r, i).v
(* a calculator is where its own calls alone would have brought it *)
RECURSIVE Alone(_, _, _)
Alone(h, c, S) == IF h = <<>> THEN S
                  ELSE Alone(Tail(h), c, IF Head(h)[1] = c THEN CallText(GF, S, Calls[Head(h)[3]].t, Modes[Head(h)[2]]).S ELSE S)
OthersDoNotMatter == NCalc > 1 => \A c \in 1..NCalc : now[c] = Alone(hist, c, NewState)
=============================================================================
