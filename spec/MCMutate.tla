------------------------------ MODULE MCMutate ------------------------------
(* Damaged programs: every program with every piece of text put in, taken   *)
(* out or put in place of a character at every position.                    *)
EXTENDS Enumerate

Progs == <<
  C("x = 2 + 3 * y"), JoinNL(<<C("x = 5"), C("1 / 0"), C("y = 6")>>), C("[1, (x = 2), 'a'] + 1"), C("abs(x, max(3, 4)) - -7"), C("f = {PARAM1 * 2}"), JoinNL(<<C("y = 1"), C("@f(x, [1 .. 3 step 2])"), C("x")>>),
  C("x then 'yes' else 'no' # why"), C("not true and (5 m < 2 km)"), JoinNL(<<C("x +"), C("(2"), C(") * 3")>>), C("5 km / 2 hours to m s^-1"), C("0b101 | 0xF as hexadecimal"), C("'it\\'s' +$ \"a\""),
  C("x += 50% - 1.5E3"), C("((((x))))"), JoinNL(<<C("{x = PARAM1"), C("x}"), C("y")>>), C("@f({PARAM1}, 2) ^ 2"), C("[[1, 2], [3]] * x"), C("date = '2020-01-01' +% 2 days"), C("min(1, 2,3 , (x = 9) + nope)"), C("[1..2, 'a' - 1]") >>
Pieces == << <<>>, C("("), C(")"), C("["), C("]"), C("{"), C("}"), C(","), C("'"), C("#"), C("@"), C("="), C(".."), C(" step "), C(" to "), C(" then "), C(" else "), C(" not "), C("5"), C("x"), C(" m "), C(" "),
             <<NL>>, C("."), C("%"), C("!"), C("?"), C("1 / 0"), C("0b"), C("0b2"), C("7z9"), C("1E"), C("+"), C("-"), C("*"), C("^"), C("/"), C("abs("), C("foo("), C("@f("), C(" and "), C("=="), C("<"), C("PARAM1"), C("$"), C("~"), <<233>>, <<8364>>, <<128512>>, <<9>>, C("\\"), C("'a\\"), C("\\'"), C("-- "), C("++"), C("/ 0") >>
MaxPos == 32
Radix == <<Len(Progs), Len(Pieces), MaxPos, 4>>
Total == Space1(Radix)
Damaged(k) == LET d == Digits(k, Radix)
                  t == Progs[d[1]]
                  i == (d[3] - 1) % (Len(t) + 1)
                  cut == IF d[4] = 4 THEN Len(t) ELSE BMin(Len(t), i + d[4] - 1)
              IN SubSeq(t, 1, i) \o Pieces[d[2]] \o SubSeq(t, cut + 1, Len(t))
Pre == JoinNL(<<C("x = 2"), C("y = [0b11]"), C("f = {PARAM1 + x}")>>)
SM == TLCEval(Ask(NewState, Pre).S)
Emit(k) == <<Pre, Damaged(k), C("x")>>
(* the statements of a text are consecutive and end where the text ends     *)
LawSpelledToTheEnd(k) ==
  LET t == Damaged(k)
      p == Parse(t, G0)
  IN IF t = <<>> THEN p.ok
     ELSE IF p.ok THEN /\ p.st[1].a = 1 /\ p.st[Len(p.st)].b = Len(t) + 1
                       /\ \A i \in 1..(Len(p.st) - 1) : p.st[i].b = p.st[i + 1].a
     ELSE p.p \in 1..(Len(t) + 1) \/ p.p = -7
(* an execution error lies in the statement that failed, with the results of *)
(* exactly the statements before                                            *)
LawFailureIsInItsStatement(k) ==
  LET r == Ask(SM, Damaged(k))
  IN r.k = "exec" => /\ Len(r.rs) = r.i - 1
                     /\ r.p >= 1 => r.p >= r.st[r.i].a /\ r.p < r.st[r.i].b
LawNothingRunsUnlessParsed(k) ==
  LET r == Ask(SM, Damaged(k))
  IN r.k = "parse" => r.S = SM /\ r.rs = <<>>
(* what fails when it is run fails the same whatever statements follow      *)
LawLaterTextDoesNotMatter(k) ==
  LET t == Damaged(k)
      a == Ask(SM, t)
      b == Ask(SM, t \o <<NL>> \o C("x = 77"))
  IN a.k = "exec" /\ b.k = "exec" => \/ a.i = Len(a.st)     \* it may have been waiting for more
                                     \/ a.p = b.p /\ a.S.v = b.S.v

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem
vars == <<mcChunk, mcItem>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
SpelledToTheEnd == mcItem >= 0 => LawSpelledToTheEnd(mcItem)
FailureIsInItsStatement == mcItem >= 0 => LawFailureIsInItsStatement(mcItem)
NothingRunsUnlessParsed == mcItem >= 0 => LawNothingRunsUnlessParsed(mcItem)
LaterTextDoesNotMatter == mcItem >= 0 => LawLaterTextDoesNotMatter(mcItem)
=============================================================================
