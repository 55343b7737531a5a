----------------------------- MODULE MCStrings -----------------------------
(* Strings: every pair of short strings over a small alphabet under every   *)
(* string function, operator and comparison.                                *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawLiteralsAreTheirCharacters(_, _), LawCounting(_, _), LawSplitUndoesJoin(_, _), LawStringsAreOrdered(_, _)

Alphabet == <<97, 66, 98, 39, 92, 32>>      \* a B b ' \ space
Short == TLCEval(SetToSeq({<<>>} \cup {<<Alphabet[i]>> : i \in 1..6} \cup {<<Alphabet[i], Alphabet[j]>> : i \in 1..6, j \in 1..6}
                          \cup {<<Alphabet[i], Alphabet[j], Alphabet[l]>> : i \in 1..3, j \in 1..3, l \in {1, 3, 4, 6}}
                          \cup {C("abcab"), C("aaaa"), C("ab ab "), <<233, 97>>, <<97, 233, 223>>, C("12"), C("a,b,,c"), C("ABab"), <<97, NL, 98>>, <<128512, 97>>}))
Radix == <<Len(Short), Len(Short), 8, 9, 9>>
Total == Space1(Radix)
Lit(s) == <<39>> \o FoldLeft(LAMBDA acc, c : acc \o (IF c \in {39, 92} THEN <<92, c>> ELSE <<c>>), <<>>, s) \o <<39>>
D(k) == LET d == Digits(k, Radix) IN [s |-> Short[d[1]], t |-> Short[d[2]], w |-> Short[1 + ((d[1] * 7 + d[2] * 11 + d[3]) % Len(Short))], i |-> d[4] - 5, j |-> d[5] - 5]
IntText(n) == IF n < 0 THEN <<45, 48 - n>> ELSE <<48 + n>>
Start(k) == NewState
Cmp == <<"<$", "<=$", ">$", ">=$", "==$", "!=$", "<~", "<=~", ">~", ">=~", "==~", "!=~">>
Call3(f, a, b, c) == C(f) \o Par(a \o C(", ") \o b \o C(", ") \o c)
Texts(k) == LET e == D(k) s == Lit(e.s) t == Lit(e.t)
            IN <<s, FnOf1("length", s), FnOf1("length", t), FnOf1("length", Bin(s, "+$", t)), FnOf2("find", s, t), FnOf2("join", FnOf2("split", s, t), t), FnOf1("lower", FnOf1("upper", s)), FnOf1("lower", s),
                 FnOf2("find", Bin(t, "+$", s), s), Bin(s, "+$", t)>> \o [i \in 1..12 |-> Bin(s, Cmp[i], t)]
Emit(k) == LET e == D(k) s == Lit(e.s) t == Lit(e.t) w == Lit(e.w)
           IN <<C("aa = ") \o s \o <<NL>> \o C("bb = ") \o t, Bin(C("aa"), "+$", C("bb")), Bin(C("aa"), "*$", <<48 + (k % 4)>>), C("[length(aa), find(aa, bb), find(bb, aa)]"), FnOf2("split", C("aa"), C("bb")), C("join(split(aa, bb), bb)"),
                Call3("replace", C("aa"), C("bb"), w), Call3("substr", C("aa"), IntText(e.i), IntText(e.j)), FnOf2("substr", C("bb"), IntText(e.i)), FnOf2("lstrip", C("aa"), C("bb")), FnOf2("rstrip", C("aa"), C("bb")), FnOf2("strip", C("aa"), C("bb")),
                C("[upper(aa), lower(aa), upper(bb)]"), C("[") \o Cat([i \in 1..12 |-> Bin(C("aa"), Cmp[i], C("bb")) \o (IF i < 12 THEN C(", ") ELSE C("]"))]), Call3("join", C("aa"), C("bb"), w), Call3("join", C("[aa, bb, aa]"), C("bb"), C("aa"))>>
Ans(r, i) == RToInt(NumAns(r[i]))
LawLiteralsAreTheirCharacters(k, r) == r[1].k = "ok" /\ LastValue(r[1]) = StrV(D(k).s)
LawCounting(k, r) == LET e == D(k)
                     IN /\ Ans(r, 2) = Len(e.s) /\ Ans(r, 3) = Len(e.t) /\ Ans(r, 4) = Len(e.s) + Len(e.t)
                        /\ LastValue(r[10]) = StrV(e.s \o e.t)
                        /\ LET p == Ans(r, 5)
                               at(i) == i + Len(e.t) <= Len(e.s) /\ SubSeq(e.s, i + 1, i + Len(e.t)) = e.t
                           IN IF p = -1 THEN \A i \in 0..Len(e.s) : ~at(i) ELSE at(p) /\ \A i \in 0..(p - 1) : ~at(i)
                        /\ Ans(r, 9) \in 0..Len(e.t)
                        /\ r[7].k = "any" \/ r[8].k = "any" \/ (\E i \in DOMAIN e.s : e.s[i] > 127) \/ LastValue(r[7]) = LastValue(r[8])
LawSplitUndoesJoin(k, r) == D(k).t # <<>> => r[6].k = "ok" /\ LastValue(r[6]) = StrV(D(k).s)
LawStringsAreOrdered(k, r) ==
  LET b(i) == LastValue(r[10 + i]).b
      e == D(k)
      trio(i) == /\ b(i) = ~b(i + 3) /\ b(i + 1) = ~b(i + 2) /\ b(i + 4) = ~b(i + 5)
                 /\ b(i + 1) = (b(i) \/ b(i + 4)) /\ ~(b(i) /\ b(i + 4))
  IN /\ \A i \in 1..12 : r[10 + i].k \in {"ok", "any"}
     /\ (\A i \in 1..12 : r[10 + i].k = "ok") => /\ trio(1) /\ trio(7)
                                                  /\ b(5) = (e.s = e.t)
                                                  /\ (b(5) => b(11))

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
LiteralsAreTheirCharacters == mcItem >= 0 => LawLiteralsAreTheirCharacters(mcItem, mcSaid)
Counting == mcItem >= 0 => LawCounting(mcItem, mcSaid)
SplitUndoesJoin == mcItem >= 0 => LawSplitUndoesJoin(mcItem, mcSaid)
StringsAreOrdered == mcItem >= 0 => LawStringsAreOrdered(mcItem, mcSaid)
=============================================================================
