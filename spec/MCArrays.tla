------------------------------ MODULE MCArrays ------------------------------
(* Ranges with every kind of end and step, and arrays of quantities under     *)
(* the array functions.                                                      *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawRangesStep(_, _), LawSortingOrders(_, _), LawCountsAndSums(_, _)
Ends == << "0", "1", "2", "5", "-3", "7.5", "0.1", "-0.3", "10", "(1 / 3)", "2 m", "350 cm", "0b101", "1 km", "0x10", "-4 m" >>
Steps == << "", "1", "2", "-1", "0.5", "-0.1", "3", "10", "50 cm", "-1 m", "(2 / 3)", "100", "0.3" >>
Elems == << "3", "-1", "2.5", "0", "7", "3.0", "10", "-2.25", "(1 / 3)", "4", "1", "100", "2", "0.5" >>
Quants == << "3 m", "1 km", "250 cm", "0 m", "-2 m", "3000 mm", "1 mile", "300 cm", "0.001 km", "5 ft", "12 in", "2 m" >>
NEnds == Len(Ends)
Radix == <<NEnds, NEnds, Len(Steps), 9, 2>>
Total == Space1(Radix)
It(k) == LET d == Digits(k, Radix)
             pool == IF d[5] = 1 THEN Elems ELSE Quants
             n == d[4]
             els(off) == [i \in 1..n |-> C(pool[1 + ((i * (d[1] + 2) + d[2] * i * i + d[3] + off) % Len(pool))])]
             lst(es) == C("[") \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE C(", ")) \o es[i], <<>>, [i \in 1..Len(es) |-> i]) \o C("]")
         IN [a |-> C(Ends[d[1]]), b |-> C(Ends[d[2]]), s |-> IF Steps[d[3]] = "" THEN <<>> ELSE C(" step ") \o C(Steps[d[3]]), es |-> els(0), x |-> lst(els(0)), y |-> lst(els(d[4])), n |-> n,
             flags |-> lst([i \in 1..n |-> IF (d[1] + d[2] * i + d[3]) % 3 = 0 THEN C("false") ELSE C("true")]), kept |-> Cardinality({i \in 1..n : (d[1] + d[2] * i + d[3]) % 3 # 0}),
             at |-> 1 + (d[2] % n), bare |-> C(Steps[IF d[3] = 1 THEN 2 ELSE d[3]])]
Rng(e) == C("[") \o e.a \o C("..") \o e.b \o e.s \o C("]")
IntStr(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Start(k) == NewState
Of(f, a) == FnOf1(f, a)
Texts(k) == LET e == It(k) x == e.x y == e.y
            IN <<Rng(e), e.a, e.b, x, FnOf1("sort", x), FnOf1("reverse", FnOf1("reverse", x)), FnOf1("sort", FnOf1("sort", x)), FnOf1("sort", FnOf1("reverse", x)), FnOf1("count", FnOf2("concat", x, y)), FnOf1("count", FnOf2("filter", x, e.flags)),
                 FnOf1("sum", x), FnOf1("sum", FnOf1("sort", x)), Bin(FnOf1("mean", x), "*", IntStr(e.n)), FnOf1("min", x), FnOf2("element", FnOf1("sort", x), C("1")), FnOf1("max", x), FnOf2("element", FnOf1("sort", x), IntStr(e.n)),
                 FnOf1("median", x), FnOf1("median", FnOf1("reverse", x)), FnOf1("count", Rng(e)), FnOf2("element", x, IntStr(e.at)), e.es[e.at], FnOf1("sum", FnOf2("concat", x, y)), Bin(FnOf1("sum", x), "+", FnOf1("sum", y)), FnOf1("min", FnOf2("concat", x, y)),
                 FnOf2("min", FnOf1("min", x), FnOf1("min", y)), C("count(") \o Rng(e) \o C(")"), e.bare>>
Emit(k) == LET e == It(k) x == e.x y == e.y
           IN <<Rng(e), C("xs = ") \o x \o <<NL>> \o C("ys = ") \o y, C("sort(xs)"), C("reverse(xs)"), C("[sum(xs), min(xs), max(xs), mean(xs), median(xs)]"), C("mode(xs)"), FnOf2("filter", C("xs"), e.flags), FnOf2("element", C("xs"), IntStr(e.at)), C("concat(xs, ys)"), C("sort(concat(xs, ys))"),
                C("xs + ys"), C("xs * 2"), C("[count(xs), count(concat(xs, xs)), count(") \o Rng(e) \o C(")]"), C("sum(") \o Rng(e) \o C(")"), C("reverse(") \o Rng(e) \o C(")"), C("[") \o e.a \o C(", ") \o e.a \o C("..") \o e.b \o e.s \o C(", ") \o e.b \o C("]"),
                C("element(xs, ") \o IntStr(e.n + 1) \o C(")"), C("mode(concat(xs, ys))"), C("median(concat(xs, ys))"), C("filter(xs, xs > ") \o e.es[1] \o C(")"), C("sum(") \o FoldLeft(LAMBDA acc, i : acc \o (IF i = 1 THEN <<>> ELSE C(", ")) \o e.es[i], <<>>, [i \in 1..e.n |-> i]) \o C(")"), C("xs") \o <<NL>> \o C("ys")>>
Nums(r) == LastValue(r).e
Physical(a, b) == a.k = "any" \/ b.k = "any" \/ (a.k = b.k /\ (a.k = "ok" => LastValue(a).k \in {"num", "apx"} /\ LastValue(b).k \in {"num", "apx"} /\ REq(RMul(NumAns(a), LastValue(a).u.f), RMul(NumAns(b), LastValue(b).u.f))))
Sized(v) == RMul(v.r, v.u.f)
LawRangesStep(k, r) ==
  (r[1].k = "ok" /\ HasNum(r[2]) /\ HasNum(r[3])) =>
    LET es == Nums(r[1])
        from == Sized(LastValue(r[2]))
        to == Sized(LastValue(r[3]))
        n == Len(es)
        el(i) == Sized(es[i].v)
        up == RLe(from, to)
        step == IF It(k).s = <<>> THEN RSub(IF n > 1 THEN el(2) ELSE RAdd(el(1), IF up THEN LastValue(r[2]).u.f ELSE RNeg(LastValue(r[2]).u.f)), el(1)) ELSE IF HasNum(r[28]) THEN Sized(LastValue(r[28])) ELSE RZero
    IN (\A i \in 1..n : es[i].v.k = "num") =>
       /\ n >= 1 /\ REq(el(1), from)
       /\ \A i \in 1..n : IF up THEN RLe(el(i), to) ELSE RLe(to, el(i))
       /\ (step.s # 0 => /\ \A i \in 2..n : REq(RSub(el(i), el(i - 1)), step)
                         /\ LET next == RAdd(el(n), step) IN IF REq(from, to) THEN n = 1 ELSE IF up THEN RLt(to, next) ELSE RLt(next, to))
Inner(r) == [i \in DOMAIN Nums(r) |-> Nums(r)[i].v]
LawSortingOrders(k, r) ==
  /\ (r[5].k = "ok" /\ (\A i \in DOMAIN Nums(r[5]) : Nums(r[5])[i].v.k = "num")) =>
        LET s == Nums(r[5]) IN Len(s) = It(k).n /\ \A i \in 2..Len(s) : RLe(Sized(s[i - 1].v), Sized(s[i].v))
  /\ (r[5].k = "ok" /\ r[7].k = "ok" => Inner(r[5]) = Inner(r[7])) /\ (r[4].k = "ok" /\ r[6].k = "ok" => Inner(r[4]) = Inner(r[6]))
  /\ Physical(r[14], r[15]) /\ Physical(r[16], r[17]) /\ Physical(r[18], r[19])
LawCountsAndSums(k, r) ==
  /\ HasNum(r[9]) => REq(NumAns(r[9]), RInt(2 * It(k).n))
  /\ HasNum(r[10]) => REq(NumAns(r[10]), RInt(It(k).kept))
  /\ Physical(r[11], r[12]) /\ Physical(r[11], r[13]) /\ Physical(r[23], r[24]) /\ Physical(r[21], r[22]) /\ Physical(r[25], r[26])

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
RangesStep == mcItem >= 0 => LawRangesStep(mcItem, mcSaid)
SortingOrders == mcItem >= 0 => LawSortingOrders(mcItem, mcSaid)
CountsAndSums == mcItem >= 0 => LawCountsAndSums(mcItem, mcSaid)
=============================================================================
