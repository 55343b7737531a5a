------------------------------ MODULE MCDates ------------------------------
(* Dates around the ends of months, years and centuries, moved by periods     *)
(* in every unit of time.                                                    *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawUndone(_, _), LawElapsed(_, _)
Years == << "2020", "2019", "1900", "2000", "1600", "2100", "0004", "9997", "1969", "1970", "1582", "0101" >>
Days == << "01-01", "12-31", "02-28", "02-29", "03-01", "01-31", "04-30", "06-15", "10-05", "11-30", "07-31" >>
Clocks == << "", "T00:00:00", "T23:59:59", "T00:00:01", "T12:00:00", "T23:59:59.999999", "T06:07:08.5", "T00:00:00.000001", "T10:20:30.25", "T00:00:00.1" >>
Amts == << "1", "0", "-1", "30", "365", "366", "-29", "0.5", "1.25", "86400", "-0.000001", "1000000", "0.1", "1461", "(1 / 3)", "36525", "-59", "0b11" >>
UnitsT == << "seconds", "days", "hours", "minutes", "weeks", "milliseconds", "microseconds", "years", "s", "h", "" >>
Radix == <<Len(Years), Len(Days), Len(Clocks), Len(Amts), Len(UnitsT)>>
Total == Space1(Radix)
Quoted(t) == C("'") \o t \o C("'")
It(k) == LET d == Digits(k, Radix)
             at(x, y, z) == Quoted(C(Years[x]) \o C("-") \o C(Days[y]) \o C(Clocks[z]))
         IN [d |-> at(d[1], d[2], d[3]), e |-> at(1 + ((d[1] + d[4]) % Len(Years)), 1 + ((d[2] + d[5]) % Len(Days)), 1 + ((d[3] + d[4]) % Len(Clocks))),
             p |-> C(Amts[d[4]]) \o (IF UnitsT[d[5]] = "" THEN <<>> ELSE C(" ") \o C(UnitsT[d[5]])), sec |-> UnitsT[d[5]] = "",
             q |-> C(Amts[1 + ((d[4] * 5 + d[5]) % Len(Amts))]) \o C(" ") \o C(UnitsT[1 + ((d[5] + d[4]) % 10)]), u |-> C(UnitsT[1 + ((d[4] + d[1]) % 10)])]
Start(k) == NewState
Diff3(a, b, u) == C("datedifference") \o Par(a \o C(", ") \o b \o C(", ") \o u)
Texts(k) == LET e == It(k)
            IN <<Bin(e.d, "+%", C("0 s")), Bin(e.d, "+%", Par(e.p)), FnOf2("dateadd", e.d, e.p), Bin(Par(Bin(e.d, "+%", Par(e.p))), "-%", Par(e.p)), Bin(e.d, "-%", Par(C("-1 * ") \o Par(e.p))), FnOf2("datesubtract", e.d, C("-1 * ") \o Par(e.p)),
                 Diff3(e.d, Par(Bin(e.d, "+%", Par(e.p))), C("s")), FnOf2("datedifference", e.d, e.e), FnOf2("datedifference", e.e, e.d), FnOf1("dateformat", e.d),
                 Bin(Par(Bin(e.d, "+%", Par(e.p))), "+%", Par(e.q)), Bin(Par(Bin(e.d, "+%", Par(e.q))), "+%", Par(e.p)), FnOf1("abs", Par(e.p)) \o C(" to s"), FnOf1("abs", e.p), Bin(e.e, "+%", C("0 s"))>>
Emit(k) == LET e == It(k)
           IN <<FnOf1("dateformat", e.d), Bin(e.d, "+%", e.p), FnOf2("dateadd", e.d, e.p), FnOf2("datesubtract", e.d, e.q), Bin(e.d, "-%", e.q), Bin(Par(Bin(e.d, "+%", Par(e.p))), "-%", Par(e.p)), FnOf2("datedifference", e.d, e.e), Diff3(e.e, e.d, e.u), Diff3(e.d, Bin(e.d, "+%", Par(e.q)), C("s")),
                C("dd = ") \o e.d \o <<NL>> \o C("dd +% ") \o Par(e.p) \o C(" -% ") \o Par(e.q), C("dateadd([dd, ") \o e.e \o C("], ") \o e.p \o C(")"), Bin(FnOf2("datedifference", e.d, e.e), "==", FnOf2("datedifference", e.e, e.d)), FnOf1("dateformat", C("dd") ), C("length(dd +% 0 s)"), C("dd +% 1 m"), C("'2020-13-01' +% 1 s"), FnOf2("datedifference", C("'") \o e.u \o C("'"), C("dd"))>>
LawUndone(k, r) == /\ SameAnswer(r[2], r[3]) /\ SameAnswer(r[5], r[6]) /\ SameAnswer(r[11], r[12])
                   /\ (r[2].k = "ok" /\ r[5].k = "ok") => SameAnswer(r[2], r[5])
                   /\ (r[4].k = "ok" => SameAnswer(r[4], r[1]))
                   /\ (r[1].k = "ok" => r[10].k \in {"ok", "any"})
LawElapsed(k, r) == /\ SameAnswer(r[8], r[9])
                    /\ (HasNum(r[8]) => NumAns(r[8]).s >= 0 /\ (r[1].k = "ok" /\ r[15].k = "ok" => (NumAns(r[8]).s = 0) = (LastValue(r[1]) = LastValue(r[15]))))
                    /\ (HasNum(r[7]) /\ ~It(k).sec /\ HasNum(r[13]) => RLe(RAbs(RSub(NumAns(r[7]), NumAns(r[13]))), RTen(-6)))
                    /\ (HasNum(r[7]) /\ It(k).sec /\ HasNum(r[14]) => RLe(RAbs(RSub(NumAns(r[7]), NumAns(r[14]))), RTen(-6)))

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
Undone == mcItem >= 0 => LawUndone(mcItem, mcSaid)
Elapsed == mcItem >= 0 => LawElapsed(mcItem, mcSaid)
=============================================================================
