------------------------------ MODULE Grammar ------------------------------
(* Operators, their precedence levels, and which operator of a flat list of *)
(* operands and operators applies first.                                    *)
EXTENDS Num

OpTable == <<
  <<1, "^", 1, 1>>,
  <<2, "not", 0, 1>>, <<2, "~", 0, 1>>,
  <<3, "=~", 1, 1>>, <<3, "!~", 1, 1>>,
  <<4, "UNIT_MULTIPLY", 1, 1>>, <<4, "UNIT_DIVIDE", 1, 1>>,
  <<5, "UNIT_ASSIGNMENT", 1, 1>>,
  <<6, "IMPLICIT_MULTIPLY", 1, 1>>,
  <<7, "*", 1, 1>>, <<7, "/", 1, 1>>, <<7, "%", 1, 1>>, <<7, "*$", 1, 1>>, <<7, "\\", 1, 1>>,
  <<8, "+", 1, 1>>, <<8, "-", 1, 1>>, <<8, "+$", 1, 1>>, <<8, "+%", 1, 1>>, <<8, "-%", 1, 1>>,
  <<9, "<<", 1, 1>>, <<9, ">>", 1, 1>>,
  <<10, "<", 1, 1>>, <<10, ">", 1, 1>>, <<10, "<=", 1, 1>>, <<10, ">=", 1, 1>>,
  <<10, "<$", 1, 1>>, <<10, ">$", 1, 1>>, <<10, "<=$", 1, 1>>, <<10, ">=$", 1, 1>>,
  <<10, "<~", 1, 1>>, <<10, ">~", 1, 1>>, <<10, "<=~", 1, 1>>, <<10, ">=~", 1, 1>>,
  <<11, "==", 1, 1>>, <<11, "!=", 1, 1>>, <<11, "==$", 1, 1>>, <<11, "!=$", 1, 1>>, <<11, "==~", 1, 1>>, <<11, "!=~", 1, 1>>,
  <<12, "&", 1, 1>>,
  <<13, "|", 1, 1>>, <<13, "^^", 1, 1>>,
  <<14, "and", 1, 1>>, <<14, "or", 1, 1>>, <<14, "xor", 1, 1>>,
  <<15, "then", 1, 3>>,
  <<16, "to", 1, 1>>, <<16, "as", 1, 1>>,
  <<17, "=", 1, 1>>, <<17, "||=", 1, 1>>, <<17, "++", 1, 0>>, <<17, "--", 1, 0>>, <<17, "+=", 1, 1>>, <<17, "-=", 1, 1>>,
  <<17, "*=", 1, 1>>, <<17, "/=", 1, 1>>, <<17, "^=", 1, 1>>, <<17, "%=", 1, 1>>, <<17, "\\=", 1, 1>> >>
NoLevel == 99
OpNames == {OpTable[i][2] : i \in DOMAIN OpTable}
OpRow == TLCEval([n \in OpNames \cup {"else"} |-> IF n = "else" THEN <<NoLevel, "else", 0, 0>>
                                                 ELSE OpTable[CHOOSE i \in DOMAIN OpTable : OpTable[i][2] = n]])
RightToLeft(level) == level = 2

(* symbols by spelling, and the longest one at a position *)
IsAlphaOp(n) == n \in {"not", "and", "or", "xor", "then", "else", "to", "as"}
SymbolOf == TLCEval(LET ks == {C(n) : n \in OpNames \cup {"else"}} IN [k \in ks |-> CHOOSE n \in OpNames \cup {"else"} : C(n) = k])
OpLengths == <<17, 15, 13, 11, 4, 3, 2, 1>>
OpAt(t, i) ==
  LET Try(n) == /\ i + n - 1 <= Len(t)
                /\ LET w == SubSeq(t, i, i + n - 1)
                   IN /\ w \in DOMAIN SymbolOf
                      /\ (IsAlphaOp(SymbolOf[w]) => (i + n > Len(t) \/ ~Word(t[i + n])))
      found == SelectSeq(OpLengths, LAMBDA n : Try(n))
  IN IF found = <<>> THEN <<0>> ELSE <<found[1], SymbolOf[SubSeq(t, i, i + found[1] - 1)]>>

----------------------------------------------------------------------------
(* A flat list of entries: "v" a value, "u" a unit, otherwise an operator.  *)
IsOp(o) == o \notin {"v", "u"}
(* the operator that position i offers: its level and name *)
Offer(os, i) ==
  LET o == os[i]
      p == IF i > 1 THEN os[i - 1] ELSE "+"
      n == IF i < Len(os) THEN os[i + 1] ELSE "+"
  IN IF o = "u" THEN (IF p = "v" THEN <<5, "UNIT_ASSIGNMENT", 0>>
                      ELSE IF p = "u" THEN <<4, "UNIT_MULTIPLY", 0>> ELSE <<NoLevel, "", 0>>)
     ELSE IF o = "v" THEN (IF IsOp(p) THEN <<NoLevel, "", 0>> ELSE <<6, "IMPLICIT_MULTIPLY", 0>>)
     ELSE IF o = "/" /\ p = "u" /\ n = "u" THEN <<4, "UNIT_DIVIDE", 1>>
     ELSE <<OpRow[o][1], o, 1>>
(* the tightest binding; the leftmost of equals, rightmost for prefix ones  *)
PickAt(os) ==
  FoldLeft(LAMBDA best, i : LET l == Offer(os, i)[1]
                            IN IF l = NoLevel THEN best
                               ELSE IF best = 0 THEN i
                               ELSE LET b == Offer(os, best)[1]
                                    IN IF l < b \/ (l = b /\ RightToLeft(l)) THEN i ELSE best,
           0, [i \in 1..Len(os) |-> i])
(* the extent of the operator offered at i: first and last entry it covers, *)
(* or what is missing                                                       *)
Extent(os, i) ==
  LET f == Offer(os, i)
      row == OpRow[f[2]]
      a == i - row[3]
      b == i + row[4] + f[3] - 1
  IN IF a < 1 THEN <<"left">> ELSE IF b > Len(os) THEN <<"right">> ELSE <<"ok", a, b>>

(* Does a statement made of these entries still wait for a right operand?   *)
(* Every operand counts as a plain value here.                              *)
RECURSIVE Waiting(_)
Waiting(os) ==
  LET i == PickAt(os)
  IN IF i = 0 THEN FALSE
     ELSE LET x == Extent(os, i)
              f == Offer(os, i)
          IN IF x[1] = "left" THEN FALSE
             ELSE IF x[1] = "right" THEN TRUE
             ELSE IF f[2] = "then" /\ os[i + 2] # "else" THEN FALSE
             ELSE IF \E k \in x[2]..x[3] : (k # i \/ f[3] = 0) /\ IsOp(os[k]) /\ ~(f[2] = "then" /\ k = i + 2) THEN FALSE
             ELSE Waiting(SubSeq(os, 1, x[2] - 1) \o <<"v">> \o SubSeq(os, x[3] + 1, Len(os)))
=============================================================================
