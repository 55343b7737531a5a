---------------------------- MODULE MCBroadcast ----------------------------
(* Operators and functions of single values, given arrays of several lengths  *)
(* and depths, some of their elements failing.                               *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawElementByElement(_, _), LawAnyDepth(_, _)
NumEls == << "3", "-1", "2.5", "0", "true", "0b101", "7", "10", "'a'", "4", "0x1f", "2" >>
UnitEls == << "3 m", "2 km", "0 m", "5 s", "-250 cm", "7", "'x'", "1 ft", "30 m", "2 kg" >>
StrEls == << "'abc'", "'b'", "''", "'Zz'", "'12'", "12", "3 m", "'a b'", "true", "'bc'" >>
BoolEls == << "true", "false", "(1 == 1)", "'a'", "1", "(2 > 3)", "0" >>
Op2(n, pool) == [n |-> n, p |-> pool, w |-> "op"]
F1(n, pool) == [n |-> n, p |-> pool, w |-> "f1"]
F2(n, pool) == [n |-> n, p |-> pool, w |-> "f2"]
F3(n, pool) == [n |-> n, p |-> pool, w |-> "f3"]
Acts == << Op2("+", NumEls), Op2("-", UnitEls), Op2("*", NumEls), Op2("*", UnitEls), Op2("/", NumEls), Op2("/", UnitEls), Op2("^", NumEls), Op2("%", NumEls), Op2("\\", NumEls), Op2("<", NumEls), Op2("==", UnitEls), Op2(">=", UnitEls), Op2("!=", NumEls),
           Op2("&", NumEls), Op2("<<", NumEls), Op2("+$", StrEls), Op2("<$", StrEls), Op2("==~", StrEls), Op2("and", BoolEls), Op2("or", BoolEls), Op2("xor", BoolEls), Op2("+", UnitEls), Op2("|", NumEls), Op2("==$", NumEls),
           F1("abs", NumEls), F1("round", UnitEls), F1("floor", NumEls), F1("length", StrEls), F1("upper", StrEls), F1("not ", BoolEls), F1("~", NumEls), F1("hex", NumEls), F1("fact", NumEls), F1("sin", NumEls),
           F2("round", NumEls), F2("gcd", NumEls), F2("find", StrEls), F2("lstrip", StrEls), F2("split", StrEls), F2("log", NumEls), F2("base", NumEls), F3("replace", StrEls), F3("substr", StrEls), F2("lcm", NumEls), F2("ceil", UnitEls), F2("strip", StrEls) >>
Shapes == << <<1, 1>>, <<2, 2>>, <<3, 3>>, <<4, 4>>, <<3, 0>>, <<0, 3>>, <<2, 3>>, <<4, 1>>, <<2, 0>>, <<0, 4>>, <<1, 3>>, <<3, 2>> >>
Radix == <<Len(Acts), Len(Shapes), 97, 3>>
Total == Space1(Radix)
It(k) == LET d == Digits(k, Radix)
             act == Acts[d[1]]
             n == Len(act.p)
             el(i, s) == C(act.p[1 + ((i * (d[3] + s) + d[3] \div 7 + s * 5) % n)])
             sh == Shapes[d[2]]
         IN [act |-> act, la |-> sh[1], lb |-> IF act.w = "f1" THEN 0 ELSE sh[2], one |-> act.w = "f1", as |-> [i \in 1..BMax(1, sh[1]) |-> el(i, 0)], bs |-> [i \in 1..BMax(1, sh[2]) |-> el(i, 3)], cs |-> el(2, 1), depth |-> d[4]]
Row(es) == C("[") \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE C(", ")) \o es[i], <<>>, [i \in 1..Len(es) |-> i]) \o C("]")
Act(e, a, b) == CASE e.act.w = "op" -> Bin(a, e.act.n, b)
                  [] e.act.w = "f1" -> C(e.act.n) \o Par(a)
                  [] e.act.w = "f2" -> FnOf2(e.act.n, a, b)
                  [] e.act.w = "f3" -> C(e.act.n) \o Par(a \o C(", ") \o b \o C(", ") \o e.cs)
Whole(e, n, es) == IF n = 0 THEN es[1] ELSE Row(es)
Start(k) == NewState
N1(e) == IF e.la > 0 THEN e.la ELSE e.lb
Mixed(e) == ~e.one /\ e.la > 0 /\ e.lb > 0 /\ e.la # e.lb
Texts(k) == LET e == It(k) a == Whole(e, e.la, e.as) b == Whole(e, e.lb, e.bs)
            IN <<Act(e, a, b), Act(e, C("[") \o a \o C(", ") \o a \o C("]"), b)>> \o [i \in 1..N1(e) |-> IF Mixed(e) THEN C("1") ELSE Act(e, IF e.la = 0 THEN e.as[1] ELSE e.as[i], IF e.lb = 0 THEN e.bs[1] ELSE e.bs[i])]
Emit(k) == LET e == It(k) a == Whole(e, e.la, e.as) b == Whole(e, e.lb, e.bs)
           IN <<Act(e, a, b), C("aa = ") \o a \o <<NL>> \o C("bb = ") \o b, Act(e, C("aa"), C("bb")), Act(e, C("[aa, ") \o b \o C("]"), C("[bb, bb]")), Act(e, C("[[") \o a \o C("], ") \o a \o C("]"), C("bb")), Act(e, C("aa"), C("[") \o b \o C(", bb]")),
                Act(e, C("aa"), e.bs[1]), Act(e, e.as[1], C("bb")), C("xx = ") \o Act(e, C("aa"), C("bb")) \o <<NL>> \o C("count(xx)"), C("[") \o Act(e, e.as[1], e.bs[1]) \o C(", ") \o Act(e, C("aa"), C("bb")) \o C("]"), C("aa") \o <<NL>> \o C("bb"), Act(e, Par(C("12 / ") \o a), b), Act(e, Par(C("aa < 3")), Par(C("12 / ") \o b)), C("element(") \o Act(e, C("aa"), C("bb")) \o C(", 1)")>>
Elem(o, r) == r.k = "any" \/ (IF r.k = "ok" THEN LastValue(r).k \in {"any", "apx"} \/ o.k \in {"any", "apx"} \/ o = LastValue(r) ELSE o.k \in {"err", "any"})
IsArr(r) == r.k = "ok" /\ LastValue(r).k = "arr"
LawElementByElement(k, r) ==
  LET e == It(k) n == N1(e)
  IN /\ Mixed(e) => r[1].k \in {"exec", "any"}
     /\ ~Mixed(e) /\ n > 0 /\ (e.la > 0 \/ ~e.one) =>
          \/ r[1].k = "any"
          \/ IsArr(r[1]) /\ Len(LastValue(r[1]).e) = n /\ \A i \in 1..n : Elem(LastValue(r[1]).e[i].v, r[2 + i])
LawAnyDepth(k, r) ==
  LET e == It(k) IN
  (~Mixed(e) /\ e.lb = 0 /\ e.la > 0 /\ IsArr(r[1]) /\ IsArr(r[2])) => \A i \in 1..2 : LastValue(r[2]).e[i].v.k = "any" \/ (LastValue(r[2]).e[i].v.k = "arr" /\ [j \in 1..e.la |-> LastValue(r[2]).e[i].v.e[j].v] = [j \in 1..e.la |-> LastValue(r[1]).e[j].v])

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
ElementByElement == mcItem >= 0 => LawElementByElement(mcItem, mcSaid)
AnyDepth == mcItem >= 0 => LawAnyDepth(mcItem, mcSaid)
=============================================================================
