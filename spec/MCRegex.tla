------------------------------ MODULE MCRegex ------------------------------
(* Regular expressions: patterns of two repeated pieces, in a row or as     *)
(* alternatives, anchored or not, on short texts.                           *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawMatchesAndSearches(_, _), LawPiecesMakeTheText(_, _), LawMatchedWholly(_, _)

Pieces == << "a", "b", ".", "[ab]", "[^a]", "\\d", "(a|b)", "(?:ab)", "\\.", "[a-c1]", "\\w", "ab", "(?:a|ab)", "(a|b)\\1", "(?=b)", "(?<!a)", "\\b" >>
Quants == << "", "*", "+", "?", "{2}", "{1,2}", "{2,}", "{0,1}", "*?", "+?", "??", "*+" >>
Shapes == 6
Subjects == TLCEval(SetToSeq({<<>>, C("a"), C("b"), C("1"), C("ab"), C("ba"), C("aa"), C("aab"), C("aba"), C("abab"), C("b.a"), C("a1b2"), C("aaaa"), C("bbab"), C("cab1"), C("a b"), C(".."), <<97, NL, 98>>, C("abcabc"), C("AbA"), C("aabbaabb"), <<233, 97>>}))
Radix == <<Len(Pieces), Len(Quants), Len(Pieces), Len(Quants), Shapes, Len(Subjects)>>
Total == Space1(Radix)
Slash(s) == FoldLeft(LAMBDA acc, c : acc \o (IF c \in {39, 92} THEN <<92, c>> ELSE <<c>>), <<>>, s)
Lit(s) == <<39>> \o Slash(s) \o <<39>>
It(k) == LET d == Digits(k, Radix)
             a == C(Pieces[d[1]]) \o C(Quants[d[2]])
             b == C(Pieces[d[3]]) \o C(Quants[d[4]])
         IN [p |-> CASE d[5] = 1 -> a \o b [] d[5] = 2 -> a \o C("|") \o b [] d[5] = 3 -> C("^") \o a \o b [] d[5] = 4 -> a \o b \o C("$") [] d[5] = 5 -> a [] d[5] = 6 -> C("^(?:") \o a \o C("|") \o b \o C(")$"),
             s |-> Subjects[d[6]], t |-> Subjects[1 + ((k * 7 + d[1]) % Len(Subjects))]]
Start(k) == NewState
Call3(f, a, b, c) == C(f) \o Par(a \o C(", ") \o b \o C(", ") \o c)
Texts(k) == LET e == It(k) s == Lit(e.s) p == Lit(e.p)
            IN <<Bin(s, "=~", p), Bin(s, "!~", p), FnOf2("regexcount", s, p), FnOf2("regexget", s, p), FnOf2("regexsplit", s, p), Call3("regexsub", s, p, C("'XY'")), FnOf2("join", FnOf2("regexsplit", s, p), C("'XY'")),
                 Call3("regexget", s, p, C("1")), Bin(s, "=~", <<39>> \o C("^(?:") \o Slash(e.p) \o C(")$'")), Call3("regexsub", s, p, C("'',1")), FnOf2("join", FnOf2("regexsplit", s, <<39>> \o C("(") \o Slash(e.p) \o C(")'")), C("''")), Call3("regexsub", s, <<39>> \o C("(") \o Slash(e.p) \o C(")'"), C("'\\\\1'"))>>
Emit(k) == LET e == It(k) s == Lit(e.s) p == Lit(e.p)
           IN <<C("aa = ") \o s \o <<NL>> \o C("bb = ") \o p, C("[aa =~ bb, aa !~ bb, regexcount(aa, bb)]"), C("regexget(aa, bb)"), C("regexget(aa, bb, 1)"), C("regexget(aa, bb, 2)"), C("regexsplit(aa, bb)"),
                C("regexsub(aa, bb, '-')"), C("regexsub(aa, bb, '<>', 1)"), C("regexsub(aa, bb, '', 2)"), C("[aa, ") \o Lit(e.t) \o C("] =~ bb"), C("regexsub(") \o Lit(e.t) \o C(", bb, aa)"), C("regexget(aa, '(") \o Slash(e.p) \o C(")(.?)')"), C("regexsplit(aa, '(a)|(") \o Slash(e.p) \o C(")')"), C("regexsub(aa, '(") \o Slash(e.p) \o C(")', '<\\\\1>')")>>
Known(r) == r.k = "ok"
Groups(k) == FindSub(It(k).p, C("(a|b)"), 1) > 0
Strs(r) == [i \in DOMAIN LastValue(r).e |-> LastValue(r).e[i].v.s]
LawMatchesAndSearches(k, r) ==
  Known(r[1]) /\ Known(r[2]) /\ Known(r[3]) =>
    /\ LastValue(r[1]).b = ~LastValue(r[2]).b
    /\ LastValue(r[1]).b = (RToInt(NumAns(r[3])) > 0)
    /\ Known(r[4]) => Len(LastValue(r[4]).e) = RToInt(NumAns(r[3]))
    /\ Known(r[4]) /\ ~Groups(k) =>
                      /\ \A i \in DOMAIN Strs(r[4]) : FindSub(It(k).s, Strs(r[4])[i], 1) > 0
                      /\ IF LastValue(r[1]).b THEN Known(r[8]) /\ LastValue(r[8]).s = Strs(r[4])[1] ELSE r[8].k = "exec"
LawPiecesMakeTheText(k, r) ==
  /\ Known(r[11]) /\ ~Groups(k) => LastValue(r[11]).s = It(k).s
  /\ Known(r[12]) /\ ~Groups(k) => LastValue(r[12]).s = It(k).s
  /\ Known(r[6]) /\ Known(r[7]) /\ ~Groups(k) => LastValue(r[6]) = LastValue(r[7])
  /\ Known(r[4]) /\ Known(r[5]) /\ ~Groups(k) =>
       LET m == Strs(r[4]) s == Strs(r[5])
       IN /\ Len(s) = Len(m) + 1
          /\ FlattenSeq([i \in 1..Len(s) |-> s[i] \o (IF i <= Len(m) THEN m[i] ELSE <<>>)]) = It(k).s
          /\ Known(r[10]) /\ m # <<>> => Len(LastValue(r[10]).s) = Len(It(k).s) - Len(m[1])
LawMatchedWholly(k, r) == Known(r[9]) /\ Known(r[1]) => (LastValue(r[9]).b => LastValue(r[1]).b)

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
MatchesAndSearches == mcItem >= 0 => LawMatchesAndSearches(mcItem, mcSaid)
PiecesMakeTheText == mcItem >= 0 => LawPiecesMakeTheText(mcItem, mcSaid)
MatchedWholly == mcItem >= 0 => LawMatchedWholly(mcItem, mcSaid)
=============================================================================
