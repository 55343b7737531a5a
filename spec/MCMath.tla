------------------------------- MODULE MCMath -------------------------------
(* Integer functions on numbers built from small primes, and the functions   *)
(* of real numbers at and around their special points.                       *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawDivisorsAndMultiples(_, _), LawFactorialsGrow(_, _), LawOddAndEven(_, _)
Bases == << "0", "1", "2", "3", "4", "6", "7", "8", "9", "10", "11", "12", "16", "17", "18", "25", "30", "36", "49", "60", "64", "97", "100", "121", "210", "360", "1001", "65536", "65537", "4294967291", "4294967296",
            "18446744073709551616", "1000000007", "2147483647", "1000000000000000000000000000000", "12345678901234567890", "99999999999999999999999999999999999999999999999999",
            "265252859812191058636308480000000", "1267650600228229401496703205376", "170141183460469231731687303715884105727" >>
NBases == Len(Bases)
Reals == << "0", "1", "-1", "0.5", "-0.5", "2", "-2", "0.1", "1.5", "10", "-10", "0.000001", "(1 / 3)", "(22 / 7)", "pi / 2", "pi", "-pi / 3", "100", "1.0000001", "e", "3", "0.999999", "-0.75", "20", "1000" >>
Funs == << "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "log", "abs" >>
Radix == <<NBases, NBases, 4, 24, Len(Reals), Len(Funs)>>
Total == Space1(Radix)
IntStr(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
It(k) == LET d == Digits(k, Radix)
             sg(b) == IF b THEN C("-") ELSE <<>>
         IN [a |-> sg(d[3] \in {2, 4}) \o C(Bases[d[1]]), b |-> sg(d[3] \in {3, 4}) \o C(Bases[d[2]]), c |-> C(Bases[1 + ((d[1] + d[2] * 3) % NBases)]),
             n |-> (d[4] - 1) * 3 + (d[5] % 3), x |-> C(Reals[d[5]]), f |-> Funs[d[6]], g |-> Funs[1 + ((d[6] + d[4]) % Len(Funs))], y |-> C(Reals[1 + ((d[5] + d[4]) % Len(Reals))])]
Start(k) == NewState
Texts(k) == LET e == It(k) a == e.a b == e.b
            IN <<a, b, FnOf2("gcd", a, b), FnOf2("lcm", a, b), FnOf2("gcd", b, a), FnOf2("lcm", b, a), FnOf2("gcd", a, FnOf2("lcm", a, b)), FnOf2("gcd", FnOf2("gcd", a, b), e.c), FnOf2("gcd", a, FnOf2("gcd", b, e.c)), FnOf1("abs", a),
                 FnOf1("fact", IntStr(e.n)), FnOf1("fact", IntStr(e.n + 1)), FnOf1(e.f, e.x), FnOf1(e.f, C("0 - ") \o e.x), FnOf1("abs", Bin(a, "/", C("7")))>>
Emit(k) == LET e == It(k) a == e.a b == e.b
           IN <<FnOf2("gcd", a, b), FnOf2("lcm", a, b), C("[gcd(") \o b \o C(", ") \o a \o C("), lcm(") \o b \o C(", ") \o a \o C(")]"), FnOf2("gcd", a, FnOf2("lcm", b, e.c)), FnOf2("lcm", FnOf2("gcd", a, b), e.c), FnOf1("abs", a), FnOf1("abs", Bin(a, "/", b)),
                FnOf1("fact", IntStr(e.n)), FnOf2("gcd", FnOf1("fact", IntStr(e.n)), a), FnOf1("fact", Bin(a, "/", C("2"))), FnOf2("lcm", Bin(a, "/", C("3")), b), FnOf1("fact", C("-") \o IntStr(e.n)), FnOf2("gcd", a, C("2.5")),
                FnOf1(e.f, e.x), FnOf1(e.g, e.x), FnOf1(e.f, FnOf1(e.g, e.x)), FnOf1(e.f, C("-1 * ") \o e.x), FnOf2("log", e.x, e.y), FnOf2("log", C("8"), C("2")), FnOf1(e.f, C("[") \o e.x \o C(", ") \o e.y \o C("]")), Bin(e.x, "^", e.y), Bin(e.x, "^", C("0.5"))>>
LawDivisorsAndMultiples(k, r) ==
  (\A i \in 1..10 : HasNum(r[i])) =>
    LET v(i) == NumAns(r[i])
        divides(a, b) == IF a.s = 0 THEN b.s = 0 ELSE RIsInt(RDiv(b, a))
    IN /\ REq(RMul(v(3), v(4)), RAbs(RMul(v(1), v(2))))
       /\ divides(v(3), v(1)) /\ divides(v(3), v(2)) /\ divides(v(1), v(4)) /\ divides(v(2), v(4))
       /\ v(3).s >= 0 /\ v(4).s >= 0
       /\ REq(v(3), v(5)) /\ REq(v(4), v(6)) /\ REq(v(7), RAbs(v(1))) /\ REq(v(8), v(9)) /\ REq(v(10), RAbs(v(1)))
       /\ REq(NumAns(r[15]), RDiv(v(10), RInt(7)))
LawFactorialsGrow(k, r) == HasNum(r[11]) /\ HasNum(r[12]) => REq(NumAns(r[12]), RMul(RInt(It(k).n + 1), NumAns(r[11])))
LawOddAndEven(k, r) ==
  LET e == It(k)
      both == r[13].k = "ok" /\ r[14].k = "ok" /\ LastValue(r[13]).k \in {"num", "apx"} /\ LastValue(r[14]).k \in {"num", "apx"}
      tol(v) == IF v.k = "apx" THEN v.tol ELSE RZero
      near(a, b) == RLe(RAbs(RSub(a, b)), RAdd(tol(LastValue(r[13])), tol(LastValue(r[14]))))
  IN both => /\ e.f \in {"sin", "tan", "asin", "atan", "sinh", "tanh", "asinh", "atanh"} => near(NumAns(r[13]), RNeg(NumAns(r[14])))
             /\ e.f \in {"cos", "cosh", "abs"} => near(NumAns(r[13]), NumAns(r[14]))
             /\ e.f = "exp" /\ LastValue(r[13]).k = "apx" => NumAns(r[13]).s = 1

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
DivisorsAndMultiples == mcItem >= 0 => LawDivisorsAndMultiples(mcItem, mcSaid)
FactorialsGrow == mcItem >= 0 => LawFactorialsGrow(mcItem, mcSaid)
OddAndEven == mcItem >= 0 => LawOddAndEven(mcItem, mcSaid)
=============================================================================
