------------------------------- MODULE Codes -------------------------------
(* Texts are sequences of Unicode code points.  C("...") gives the code     *)
(* points of a printable-ASCII TLA+ string, so that the specification can   *)
(* still spell words.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiOf == TLCEval([ch \in {SubSeq(Printable, i, i) : i \in 1..95} |->
                     31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch)])
C(s) == TLCEval([i \in 1..Len(s) |-> AsciiOf[SubSeq(s, i, i)]])

NL == 10
Digit(c)  == c >= 48 /\ c <= 57
Upper(c)  == c >= 65 /\ c <= 90
Lower(c)  == c >= 97 /\ c <= 122
AAlpha(c) == Upper(c) \/ Lower(c)
AlnumVal(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE IF Lower(c) THEN c - 87 ELSE 99

(* Letters outside ASCII.  The harness only uses code points for which this *)
(* table is right: Latin-1, a few Greek and Latin-Extended letters, the     *)
(* superscripts and fractions, general punctuation, CJK and emoji.          *)
Alpha(c) == \/ AAlpha(c)
            \/ c \in {170, 181, 186}
            \/ (c >= 192 /\ c <= 687 /\ c # 215 /\ c # 247)
            \/ (c >= 913 /\ c <= 969 /\ c # 930)
            \/ (c >= 1040 /\ c <= 1103)
            \/ (c >= 19968 /\ c <= 40869)
            \/ c \in {64256, 64257, 7838, 8490, 8486, 8491}
Word(c)  == Alpha(c) \/ Digit(c) \/ c = 95 \/ c \in {178, 179, 185, 188, 189, 190}
Space(c) == \/ (c >= 9 /\ c <= 13) \/ (c >= 28 /\ c <= 32) \/ c \in {133, 160, 5760, 8232, 8233, 8239, 8287, 12288}
            \/ (c >= 8192 /\ c <= 8202)

(* Simple and special case mappings of the same repertoire *)
LowerOf(c) == IF Upper(c) THEN <<c + 32>>
              ELSE IF c < 192 THEN <<c>>
              ELSE IF c <= 222 /\ c # 215 THEN <<c + 32>>
              ELSE IF c = 304 THEN <<105, 775>>
              ELSE IF c = 376 THEN <<255>>
              ELSE IF c >= 256 /\ c <= 303 /\ c % 2 = 0 THEN <<c + 1>>
              ELSE IF c >= 913 /\ c <= 939 /\ c # 930 THEN <<c + 32>>
              ELSE IF c >= 1040 /\ c <= 1071 THEN <<c + 32>>
              ELSE IF c = 7838 THEN <<223>>
              ELSE IF c = 8490 THEN <<107>> ELSE IF c = 8486 THEN <<969>> ELSE IF c = 8491 THEN <<229>>
              ELSE <<c>>
UpperOf(c) == IF Lower(c) THEN <<c - 32>>
              ELSE IF c < 181 THEN <<c>>
              ELSE IF c = 181 THEN <<924>>
              ELSE IF c = 223 THEN <<83, 83>>
              ELSE IF c >= 224 /\ c <= 254 /\ c # 247 THEN <<c - 32>>
              ELSE IF c = 255 THEN <<376>>
              ELSE IF c >= 256 /\ c <= 303 /\ c % 2 = 1 THEN <<c - 1>>
              ELSE IF c >= 945 /\ c <= 971 THEN (IF c = 962 THEN <<931>> ELSE <<c - 32>>)
              ELSE IF c >= 1072 /\ c <= 1103 THEN <<c - 32>>
              ELSE IF c = 64257 THEN <<70, 73>> ELSE IF c = 64256 THEN <<70, 70>>
              ELSE <<c>>
LowerStr(s) == FoldLeft(LAMBDA acc, c : acc \o LowerOf(c), <<>>, s)
UpperStr(s) == FoldLeft(LAMBDA acc, c : acc \o UpperOf(c), <<>>, s)
(* one code point for one code point: for comparing ASCII words only *)
Fold(c) == IF Upper(c) THEN c + 32 ELSE c

StartsAt(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
                     /\ SubSeq(t, i, i + Len(w) - 1) = w
StartsAtFold(t, i, w) == /\ i + Len(w) - 1 <= Len(t)
                         /\ \A j \in 1..Len(w) : Fold(t[i + j - 1]) = w[j]
(* first position >= i with code c, or Len + 1 *)
RECURSIVE FindCode(_, _, _)
FindCode(t, i, c) == IF i > Len(t) \/ t[i] = c THEN i ELSE FindCode(t, i + 1, c)

(* the longest run of code points of a class starting at i: the first       *)
(* position after it                                                        *)
RECURSIVE RunDigit(_, _), RunBin(_, _), RunOct(_, _), RunHex(_, _), RunAlnum(_, _), RunName(_, _), RunAlpha(_, _)
RunDigit(t, i) == IF i <= Len(t) /\ Digit(t[i]) THEN RunDigit(t, i + 1) ELSE i
RunBin(t, i)   == IF i <= Len(t) /\ t[i] \in {48, 49} THEN RunBin(t, i + 1) ELSE i
RunOct(t, i)   == IF i <= Len(t) /\ t[i] >= 48 /\ t[i] <= 55 THEN RunOct(t, i + 1) ELSE i
RunHex(t, i)   == IF i <= Len(t) /\ AlnumVal(t[i]) < 16 THEN RunHex(t, i + 1) ELSE i
RunAlnum(t, i) == IF i <= Len(t) /\ AlnumVal(t[i]) < 36 THEN RunAlnum(t, i + 1) ELSE i
RunName(t, i)  == IF i <= Len(t) /\ (AlnumVal(t[i]) < 36 \/ t[i] = 95) THEN RunName(t, i + 1) ELSE i
RunAlpha(t, i) == IF i <= Len(t) /\ AAlpha(t[i]) THEN RunAlpha(t, i + 1) ELSE i

(* string operations on code sequences (Python meaning) *)
RECURSIVE FindSub(_, _, _)
FindSub(t, w, i) == IF i + Len(w) - 1 > Len(t) THEN 0
                    ELSE IF SubSeq(t, i, i + Len(w) - 1) = w THEN i ELSE FindSub(t, w, i + 1)
InSeq(s, c) == \E i \in 1..Len(s) : s[i] = c
RECURSIVE StripL(_, _), StripR(_, _)
StripL(s, set) == IF Len(s) > 0 /\ InSeq(set, s[1]) THEN StripL(SubSeq(s, 2, Len(s)), set) ELSE s
StripR(s, set) == IF Len(s) > 0 /\ InSeq(set, s[Len(s)]) THEN StripR(SubSeq(s, 1, Len(s) - 1), set) ELSE s
RECURSIVE SplitOn(_, _)
SplitOn(s, d) == LET k == FindSub(s, d, 1)
                 IN IF k = 0 THEN <<s>>
                    ELSE <<SubSeq(s, 1, k - 1)>> \o SplitOn(SubSeq(s, k + Len(d), Len(s)), d)
RECURSIVE JoinFrom(_, _, _)
JoinFrom(ss, d, i) == IF i = Len(ss) THEN ss[i] ELSE ss[i] \o d \o JoinFrom(ss, d, i + 1)
JoinWith(ss, d) == IF Len(ss) = 0 THEN <<>> ELSE JoinFrom(ss, d, 1)
StrReplace(s, a, b) ==
  IF Len(a) > 0 THEN JoinWith(SplitOn(s, a), b)
  ELSE b \o FoldLeft(LAMBDA acc, c : Append(acc, c) \o b, <<>>, s)
RepeatSeq(s, n) == IF n <= 0 THEN <<>> ELSE FlattenSeq([i \in 1..n |-> s])
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
                    ELSE IF i > Len(b) THEN 1
                    ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpFrom(a, b, i + 1)
StrCmp(a, b) == CmpFrom(a, b, 1)
Zfill(s, w) == IF Len(s) >= w THEN s ELSE RepeatSeq(<<48>>, w - Len(s)) \o s
NatCodes(n) == LET RECURSIVE F(_)
                   F(k) == IF k < 10 THEN <<48 + k>> ELSE Append(F(k \div 10), 48 + (k % 10))
               IN F(n)
=============================================================================
