------------------------------ MODULE MCLayout ------------------------------
(* Layout: programs with every filler put into every gap, two gaps at a time.*)
(* In the programs below a ` is a gap that may be empty, a ~ one that may   *)
(* not, a _ one after an operator waiting for its operand; inside brackets  *)
(* line breaks are layout.                                                  *)
EXTENDS Enumerate

Progs == <<
  C("`x`=_(`2`+_3`)`*_y`"), C("`[`1`,`(`x`=_5`)`,`x`]`"), C("`max(`1`,`[`2`,`3`]`,`y`)`-_1`"), C("`f`=_{PARAM1`*_2}`"), C("`@f(`x`+_1`,`y`)`"),
  C("`x~then~y`+_1~else~'a #'`"), C("`not~true~and~x`==_2`"), C("`5~km~to~m`"), C("`[`1`..`9`step~2`]`"), C("`'a)'`+$_'# b'`+$_'\\''`"), C("`0x1F`+_-3`-_2`^_-1`"),
  C("`(`(`x`)`)`+=_1`"), C("`x`++`"), C("`~0b01`&_0b11~as~hexadecimal`"), C("`3~m^2`/_2~s`"), C("`x`||=_50%`"), C("`f`=_'add'`"), C("`@f(`@f(`1`,`2`)`,`3`)`"),
  C("`1`/_0`"), C("`abs(`'a'`)`+_1`"), C("`(`1`+_)`"), C("`min(`)`"), C("`x`=_[`{PARAM1}`,`'add'`]`"), C("`'2020-01-01'`+%_3~days`"), C("`2`x`"), C("`1E3`-_20%`*_7z12`") >>
Open(c) == c \in {40, 91}
Close(c) == c \in {41, 93}
(* the gaps of a program: <<position, kind, inside brackets>> *)
RECURSIVE Scan(_, _, _, _, _)
Scan(t, i, depth, quoted, acc) ==
  IF i > Len(t) THEN acc
  ELSE LET c == t[i] IN
    IF quoted THEN Scan(t, i + (IF c = 92 THEN 2 ELSE 1), depth, c # 39, acc)
    ELSE IF c = 39 THEN Scan(t, i + 1, depth, TRUE, acc)
    ELSE IF c = 96 \/ c = 95 \/ (c = 126 /\ ~(i < Len(t) /\ t[i + 1] = 48)) THEN Scan(t, i + 1, depth, FALSE, Append(acc, <<i, c, depth > 0>>))
    ELSE Scan(t, i + 1, depth + (IF Open(c) THEN 1 ELSE IF Close(c) THEN -1 ELSE 0), FALSE, acc)
Gaps == TLCEval([p \in DOMAIN Progs |-> Scan(Progs[p], 1, 0, FALSE, <<>>)])
MaxGaps == 16
Blank == << <<>>, C(" "), C("  "), <<9>>, <<32, 9, 32>> >>
Lines == << <<NL>>, <<32, NL, NL>>, C("# c") \o <<NL>>, C(" #) '[ + 5") \o <<NL, 32>>, C("#") \o <<NL, 9>>, <<NL>> \o C("#(((") \o <<NL>> >>
NFill == Len(Blank) + Len(Lines)
Fill(g, f) == IF f <= Len(Blank) THEN (IF g[2] = 126 /\ f = 1 THEN C("   ") ELSE Blank[f])
              ELSE IF g[3] \/ g[2] = 95 THEN Lines[f - Len(Blank)] ELSE Blank[2 + (f % 4)]
Default(g) == IF g[2] = 126 THEN C(" ") ELSE <<>>
RECURSIVE Build(_, _, _, _)
(* ch maps gap numbers to fillers *)
Build(p, i, n, ch) ==
  IF i > Len(Progs[p]) THEN <<>>
  ELSE IF n <= Len(Gaps[p]) /\ Gaps[p][n][1] = i
       THEN (IF n \in DOMAIN ch THEN Fill(Gaps[p][n], ch[n]) ELSE Default(Gaps[p][n])) \o Build(p, i + 1, n + 1, ch)
       ELSE <<Progs[p][i]>> \o Build(p, i + 1, n, ch)
Radix == <<Len(Progs), MaxGaps, NFill, MaxGaps, NFill>>
Total == Space1(Radix)
Untouched(d) == Build(d[1], 1, 1, EmptyVars)
Laid(d) == LET n == Len(Gaps[d[1]]) IN Build(d[1], 1, 1, TLCEval((((d[2] - 1) % n) + 1 :> d[3]) @@ (((d[4] - 1) % n) + 1 :> d[5])))
Pre == JoinNL(<<C("x = 2"), C("y = [0b11]"), C("f = {PARAM1 + x}")>>)
SL == TLCEval(Ask(NewState, Pre).S)
Emit(k) == LET d == Digits(k, Radix) IN <<Pre, Laid(d), Laid(d) \o <<NL>> \o Untouched(d)>>
(* the same answers, state and number of statements *)
Bare(r) == [k |-> r.k, n |-> Len(r.st), rs |-> [i \in DOMAIN r.rs |-> IF r.rs[i].has THEN r.rs[i].v ELSE NilV], v |-> r.S.v]
LawLayoutChangesNothing(k) ==
  LET d == Digits(k, Radix)
      a == Ask(SL, Untouched(d))
      b == Ask(SL, Laid(d))
  IN \/ a.k = "any" \/ b.k = "any"
     \/ Bare(a) = Bare(b)
     \/ a.k = "ok" /\ \E i \in DOMAIN a.rs : a.rs[i].has /\ a.rs[i].v.k \in {"fn", "arr"} /\ b.k = "ok" /\ Len(b.rs) = Len(a.rs)
LawNothingIsLost(k) ==
  LET t == Laid(Digits(k, Radix))
      p == Parse(t, G0)
  IN p.ok => /\ p.st[1].a = 1 /\ p.st[Len(p.st)].b = Len(t) + 1
             /\ \A i \in 1..(Len(p.st) - 1) : p.st[i].b = p.st[i + 1].a

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem
vars == <<mcChunk, mcItem>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
LayoutChangesNothing == mcItem >= 0 => LawLayoutChangesNothing(mcItem)
NothingIsLost == mcItem >= 0 => LawNothingIsLost(mcItem)
=============================================================================
