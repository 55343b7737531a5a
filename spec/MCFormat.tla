------------------------------ MODULE MCFormat ------------------------------
(* Quantities in every unit, written out in every system: what is written   *)
(* adds up to the quantity and does not depend on the unit it was given in. *)
EXTENDS Enumerate
RECURSIVE LawAddsUp(_, _), LawAnyUnitWill(_, _), LawOwnSystem(_, _), LawFallsOff(_, _)

Amounts == << "1", "0.5", "0", "59", "61.5", "1000", "1234.5678", "999999", "86399.999", "-3", "2.000000001", "0.0000123", "123456789.75", "7", "(2/3)", "12", "90061" >>
Radix == <<NB, 4, Len(Amounts), Len(SystemNames) + 1, 5>>
Total == Space1(Radix)
AllowedBy == TLCEval([x \in 1..NB |-> SetToSeq({p \in 1..NP : PrefixOn(p, x)})])
Allowed(b) == AllowedBy[b]
Kin == TLCEval([b \in 1..NB |-> SetToSeq({x \in 1..NB : Base[x].d = Base[b].d})])
Spelling(b, p) == (IF p = 0 THEN <<>> ELSE PfxTab[p].n) \o C(Base[b].n[1])
It(k) == LET d == Digits(k, Radix)
             b == d[1]
             ps == Allowed(b)
             p == IF d[2] = 1 \/ ps = <<>> THEN 0 ELSE ps[1 + ((k + d[2] * 5) % Len(ps))]
             mates == Kin[b]
         IN [b |-> b, p |-> p, q |-> C(Amounts[d[3]]) \o <<32>> \o Spelling(b, p),
             u |-> UnitOf(p, b), s |-> IF d[4] = 1 THEN "" ELSE SystemNames[d[4] - 1],
             other |-> Spelling(mates[1 + ((d[5] + d[3] * 3) % Len(mates))], 0)]
Start(k) == NewState
Fmt(q, s) == C("format") \o Par(IF s = "" THEN q ELSE q \o C(", ") \o C(s))
Texts(k) == LET e == It(k)
            IN <<Fmt(e.q, e.s), Fmt(C("(") \o e.q \o C(" to ") \o e.other \o C(")"), IF e.s = "" THEN "si" ELSE e.s), Fmt(e.q, IF e.s = "" THEN "si" ELSE e.s), e.q, Fmt(e.q, "")>>
Emit(k) == LET e == It(k)
           IN <<C("qq = ") \o e.q, Fmt(C("qq"), e.s), Fmt(C("qq to ") \o e.other, e.s), Fmt(C("qq"), ""), Fmt(C("qq * 3"), e.s), Fmt(C("qq + 1 ") \o e.other, e.s),
                C("length(") \o Fmt(C("qq"), e.s) \o C(") > 3"), Fmt(C("[qq, 2 qq]"), e.s), Fmt(C("compact(qq)"), e.s)>>
Known(r) == r.k = "ok" /\ LastValue(r).k = "str"
Said(r) == LastValue(r).s
Plus(t) == FlattenSeq([i \in DOMAIN t |-> IF t[i] = 44 THEN C(" +") ELSE <<t[i]>>])
InSI(r) == RMul(LastValue(r).r, LastValue(r).u.f)
(* all but for the rounding to thirty decimal places *)
Close(a, b, u) == RLe(RAbs(RSub(a, b)), RAdd(RMul(RAbs(a), RTen(-40)), RMul(u, RTen(-30))))
(* the parts added up are the quantity *)
LawAddsUp(k, r) ==
  Known(r[1]) /\ r[4].k = "ok" /\ ~IsTemp(It(k).u.d) =>
    LET back == Ask(NewState, Plus(Said(r[1])))
    IN back.k = "any" \/ (back.k = "ok" /\ LastValue(back).u.d = It(k).u.d /\ Close(InSI(back), InSI(r[4]), LastValue(back).u.f))
(* each part is less than one of the unit before it *)
Parts(t) == SplitOn(t, C(", "))
LawFallsOff(k, r) ==
  Known(r[1]) /\ ~IsTemp(It(k).u.d) =>
    LET ps == TLCEval([i \in DOMAIN Parts(Said(r[1])) |-> Ask(NewState, Parts(Said(r[1]))[i])])
    IN \A i \in DOMAIN ps : /\ ps[i].k = "ok"
                            /\ i > 1 => RLt(InSI(ps[i]), LastValue(ps[i - 1]).u.f) /\ LastValue(ps[i]).r.s > 0
(* the unit in which the quantity was given does not matter *)
LawAnyUnitWill(k, r) == Known(r[2]) /\ Known(r[3]) => Said(r[2]) = Said(r[3])
(* without a system, the one preferred of the unit's own *)
LawOwnSystem(k, r) ==
  LET e == It(k)
      mine == SelectSeq(SystemNames, LAMBDA s : s \in SystemsWith(e.p, e.b))
  IN r[5].k = "ok" /\ LastValue(r[5]).k = "str" => mine # <<>> /\ LET n == Ask(NewState, Fmt(e.q, mine[1])) IN Known(n) /\ Said(n) = Said(r[5])

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
AddsUp == mcItem >= 0 => LawAddsUp(mcItem, mcSaid)
FallsOff == mcItem >= 0 => LawFallsOff(mcItem, mcSaid)
AnyUnitWill == mcItem >= 0 => LawAnyUnitWill(mcItem, mcSaid)
OwnSystem == mcItem >= 0 => LawOwnSystem(mcItem, mcSaid)
=============================================================================
