------------------------------- MODULE Format -------------------------------
(* Quantities written out in the units of a system: the largest that fits   *)
(* first, whole numbers of all but the smallest, which takes what is left.  *)
EXTENDS Values

Light == {"lightyears", "lightweeks", "lightdays", "lighthours", "lightminutes", "lightseconds", "astronomical units", "parsecs"}
Customary == {"inches", "feet", "yards", "miles", "grains", "ounces", "pounds", "acres", "pound-force per square inch", "fahrenheit"}
British == {"stone", "long tons", "uk fluid ounces", "uk gills", "uk pints", "uk quarts", "uk gallons"}
American == {"short tons", "us drams", "us fluid ounces", "us gills", "us cups", "us pints", "us quarts", "us gallons"}
Calendar == {"minutes", "hours", "days", "weeks", "months", "years"}
(* known, but not used to write quantities *)
Passed == {"lightweeks", "weeks", "uk gills", "uk quarts", "us gills"}
SystemsOf(b) == LET n == Base[b].n[1]
                IN CASE n \in Light -> {"asu"} [] n \in Customary -> {"us", "uk"} [] n \in British -> {"uk"} [] n \in American -> {"us"}
                     [] n \in Calendar -> {"gregorian"} [] n = "seconds" -> {"si", "gregorian"} [] n \in {"nautical miles", "knots"} -> {"nautical"}
                     [] n \in {"bits", "bytes"} -> {"si", "iec"} [] n \in {"gees", "atmospheres"} -> {} [] OTHER -> {"si"}
PrefixFor(p, b, s) == PrefixOn(p, b) /\ (Base[b].p = "data" => (RLt(ROne, PfxTab[p].f) /\ (PfxTab[p].f \in {Pow2(j) : j \in 1..8}) = (s = "iec")))
FmtUnits == TLCEval([s \in Range(SystemNames) |-> [d \in {Base[b].d : b \in 1..NB} |->
              SetToSortSeq({b \in 1..NB : Base[b].d = d /\ s \in SystemsOf(b) /\ Base[b].n[1] \notin Passed}, LAMBDA a, b : RLt(Base[b].f, Base[a].f))]])
FmtScales == TLCEval([s \in Range(SystemNames) |-> [b \in 1..NB |-> SetToSortSeq({0} \cup {p \in 1..NP : PrefixFor(p, b, s)}, LAMBDA x, y : RLt(UnitOf(y, b).f, UnitOf(x, b).f))]])
(* the units (with prefix) of one dimension and size, and the systems they are in *)
FmtAre(u) == UNION {{<<p, b>> : p \in {q \in {0} \cup {q \in 1..NP : PrefixOn(q, b)} : UnitOf(q, b).f = u.f}} : b \in {x \in 1..NB : Base[x].d = u.d}}
SystemsWith(p, b) == IF p = 0 THEN SystemsOf(b) ELSE {s \in SystemsOf(b) : PrefixFor(p, b, s)}
(* dimensions left open: angles (not exact), those shared by several kinds of quantity *)
FmtOpen(u) == u.d \in {DAng, DFreq, DDose} \/ (u.d = DVol /\ \E k \in {-2, -3, -6, -9, -12, -15, -18, 3} : u.f = RTen(3 * k))

FmtName(b, p, one) == LET n == C(Base[b].n[IF one THEN 2 ELSE 1])
                      IN (IF p = 0 THEN <<>> ELSE PfxTab[p].n)
                         \o (IF SubSeq(n, 1, 3) \in {C("us "), C("uk ")} THEN <<n[1] - 32, n[2] - 32>> \o SubSeq(n, 3, Len(n)) ELSE n)
FmtScale(r, b, s) == LET ps == FmtScales[s][b]
                         fit == SelectSeq(ps, LAMBDA p : RLe(UnitOf(p, b).f, r))
                     IN IF fit # <<>> THEN fit[1] ELSE ps[Len(ps)]
FmtPart(r, b, p) == LET n == RDiv(r, UnitOf(p, b).f)
                        t == DecText(n)
                    IN <<t[1], t[2] \o <<32>> \o FmtName(b, p, n = ROne)>>
RECURSIVE FmtParts(_, _, _, _, _)
FmtParts(r, bs, k, s, acc) ==
  LET b == bs[k]
      whole == RMul(RFloor(RDiv(r, Base[b].f)), Base[b].f)
  IN IF k = Len(bs) THEN (IF r.s # 0 THEN Append(acc, FmtPart(r, b, FmtScale(r, b, s))) ELSE IF acc = <<>> THEN <<FmtPart(r, b, 0)>> ELSE acc)
     ELSE IF RLt(r, Base[b].f) THEN FmtParts(r, bs, k + 1, s, acc)
     ELSE FmtParts(RSub(r, whole), bs, k + 1, s, Append(acc, FmtPart(whole, b, FmtScale(whole, b, s))))
(* a temperature: a reading, and what is left of it as a difference *)
FmtBase(n) == CHOOSE b \in 1..NB : Base[b].n[1] = n
FmtTemp(v, s) ==
  LET in(n) == Conv(v.r, v.u, [UNone EXCEPT !.o = Base[FmtBase(n)].o, !.f = Base[FmtBase(n)].f, !.d = DTemp], FALSE)
      c == in("celsius")
      k == in("kelvin")
      f == in("fahrenheit")
      kelvin(r) == IF r.s = 0 THEN FmtPart(r, FmtBase("kelvin"), 0) ELSE FmtPart(r, FmtBase("kelvin"), FmtScale(r, FmtBase("kelvin"), "si"))
      shown(n, t) == IF DecText(n)[1] THEN <<TRUE, DecText(n)[2] \o C(t)>> ELSE <<FALSE>>
  IN CASE s = "si" -> IF c[1] # "ok" \/ k[1] # "ok" THEN << <<FALSE>> >>
                      ELSE IF RLt(c[2], ROne) THEN <<kelvin(k[2])>>
                      ELSE <<shown(RFloor(c[2]), " Celsius")>> \o (IF RFloor(c[2]) = c[2] THEN <<>> ELSE <<kelvin(RSub(c[2], RFloor(c[2])))>>)
       [] s \in {"us", "uk"} -> IF f[1] # "ok" THEN << <<FALSE>> >> ELSE <<shown(f[2], " Fahrenheit")>>
FormatOp(v, named, pref) ==
  LET are == FmtAre(v.u)
      has == UNION {SystemsWith(a[1], a[2]) : a \in are}
      mine == SelectSeq(pref, LAMBDA s : s \in has)
      s == IF named # <<>> THEN CHOOSE x \in Range(SystemNames) : C(x) = named[1] ELSE mine[1]
      r == RMul(v.r, v.u.f)
      ps == TLCEval(IF IsTemp(v.u.d) THEN FmtTemp(v, s) ELSE FmtParts(r, FmtUnits[s][v.u.d], 1, s, <<>>))
  IN IF IsTemp(v.u.d) /\ v.u.o \notin Abs3 THEN AnyO
     ELSE IF ~v.u.x \/ v.u.q # "s" \/ FmtOpen(v.u) \/ are = {} \/ v.c.t \notin {"none", "dec"} \/ DL(r.n) + DL(r.d) > 80
        \/ (\E a, b \in are : SystemsWith(a[1], a[2]) # SystemsWith(b[1], b[2])) THEN AnyO
     ELSE IF named = <<>> /\ mine = <<>> THEN Bad
     ELSE IF FmtUnits[s][v.u.d] = <<>> THEN Bad
     ELSE IF \E k \in DOMAIN ps : ~ps[k][1] THEN AnyO
     ELSE Op0(StrV(JoinWith([k \in DOMAIN ps |-> ps[k][2]], C(", "))))
=============================================================================
