------------------------------ MODULE MCUnits ------------------------------
(* Every spelling of every unit, prefixed ones included, against others of  *)
(* its dimension and one of another, for several numbers and powers.        *)
EXTENDS Enumerate

NameSeq == TLCEval(SetToSeq(DOMAIN NameTab))
SymSeq == TLCEval(SelectSeq(SetToSeq(DOMAIN SymTab), LAMBDA s : s # C("as")))
AmbSeq == TLCEval(SetToSeq(AmbNames \cup AmbSyms))
Spelt == NameSeq \o SymSeq \o AmbSeq
NN == Len(NameSeq)
Kind(i) == IF i <= NN THEN "name" ELSE IF i <= NN + Len(SymSeq) THEN "symbol" ELSE "both"
Denotes(i) == IF i <= NN THEN NameTab[Spelt[i]] ELSE IF i <= NN + Len(SymSeq) THEN SymTab[Spelt[i]] ELSE AmbUnit(Spelt[i], SystemNames)
Dimensions == TLCEval(SetToSeq({Denotes(i).d : i \in DOMAIN Spelt}))
Mates == TLCEval([d \in {Dimensions[j] : j \in DOMAIN Dimensions} |-> SelectSeq([i \in DOMAIN Spelt |-> i], LAMBDA i : Denotes(i).d = d)])
Values == << C("1"), C("2.5"), C("-40"), C("0"), C("(1/3)"), C("123456789.000001"), C("0b101"), C("1E-9") >>
Powers == <<"", "", "^2", "^-1", "^3">>
Shuffles == 24
Radix == <<Len(Spelt), Shuffles, Len(Values), Len(Powers)>>
Total == Space1(Radix)
D(k) == LET d == Digits(k, Radix)
            mates == Mates[Denotes(d[1]).d]
            pick(n) == mates[1 + ((d[1] * 17 + d[2] * 7 + n * 29 + d[2] * d[2] * n) % Len(mates))]
            far == 1 + ((d[1] * 31 + d[2] * 101) % Len(Spelt))
            pw == IF IsTemp(Denotes(d[1]).d) THEN "" ELSE Powers[d[4]]
        IN [a |-> Spelt[d[1]] \o C(pw), i |-> d[1], b |-> Spelt[pick(1)] \o C(pw), c |-> Spelt[pick(2)] \o C(pw), v |-> Values[d[3]],
            far |-> Spelt[far], f |-> far, pw |-> pw]
Caps(t) == [i \in DOMAIN t |-> IF i % 2 = 1 THEN UpperOf(t[i])[1] ELSE t[i]]
Is(e) == e.v \o C(" ") \o e.a
To(t, u) == t \o C(" to ") \o u
Emit(k) == LET e == D(k)
           IN <<To(Is(e), e.b), To(To(To(Is(e), e.c), e.b), e.a), To(Is(e), e.far), C("x = ") \o Is(e) \o <<NL>> \o To(C("x"), e.b) \o <<NL>> \o C("x == (") \o To(C("x"), e.c) \o C(")")>>
              \o (IF Kind(e.i) = "name" THEN <<e.v \o C(" ") \o Caps(Spelt[e.i]), Spelt[e.i] \o C(" * 2")>> ELSE <<Is(e), Is(e) \o C(" + ") \o Is(e)>>)
Answer(r) == IF r.k = "ok" /\ LastValue(r).k = "num" THEN LastValue(r).r ELSE RZero
(* there, through a third unit, and back is the number itself *)
LawThereAndBack(k) ==
  LET e == D(k)
      r == Ask(NewState, To(To(To(Is(e), e.c), e.b), e.a))
      v == Ask(NewState, e.v)
  IN \/ r.k = "any"
     \/ r.k = "ok" /\ REq(Answer(r), Answer(v))
LawSpellingDoesNotMatter(k) ==
  LET e == D(k)
      r == Ask(NewState, e.v \o C(" ") \o Caps(Spelt[e.i]))
      s == Ask(NewState, e.v \o C(" ") \o Spelt[e.i])
  IN Kind(e.i) = "name" => r.k = "ok" /\ s.k = "ok" /\ LastValue(r).u.d = Denotes(e.i).d /\ LastValue(r) = LastValue(s)
LawOtherDimensionsAreRefused(k) ==
  LET e == D(k)
      r == Ask(NewState, To(Is(e), e.far))
      n == IF e.pw = "" THEN 1 ELSE IF e.pw = "^2" THEN 2 ELSE IF e.pw = "^3" THEN 3 ELSE -1
  IN r.k = "any" \/ (r.k = "ok") = (DMul(Denotes(e.i).d, n) = Denotes(e.f).d)

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem
vars == <<mcChunk, mcItem>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
ThereAndBack == mcItem >= 0 => LawThereAndBack(mcItem)
SpellingDoesNotMatter == mcItem >= 0 => LawSpellingDoesNotMatter(mcItem)
OtherDimensionsAreRefused == mcItem >= 0 => LawOtherDimensionsAreRefused(mcItem)
=============================================================================
