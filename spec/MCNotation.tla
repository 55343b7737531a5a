----------------------------- MODULE MCNotation -----------------------------
(* Number notations: literals of every base, with fractions, signs and      *)
(* padding, alone and in pairs under every operator.                        *)
EXTENDS Enumerate
(* recursive in name only: TLC analyses the bodies of others over and over *)
RECURSIVE LawReadsBack(_, _), LawFirstNotationWins(_, _), LawOnlyTheLook(_, _)

Bases == <<2, 8, 16, 3, 7, 12, 20, 36, 10, 100, 101>>      \* 100 percentage, 101 E
Prefix(b) == CASE b = 2 -> C("0b") [] b = 8 -> C("0o") [] b = 16 -> C("0x") [] b >= 100 -> <<>>
               [] OTHER -> (IF b >= 10 THEN <<48 + (b \div 10), 48 + (b % 10)>> ELSE <<48 + b>>) \o C("z")
(* patterns of digits: 0 zero, 1 one, 2 the middle, 3 the last digit *)
Wholes == << <<1>>, <<0>>, <<3>>, <<1, 0>>, <<0, 0, 1>>, <<3, 3>>, <<2, 0, 3>>, <<1, 3, 2, 0, 1>>, <<3, 3, 3, 3, 3, 3, 3, 3>> >>
Fracs == << <<>>, <<>>, <<1>>, <<2>>, <<0, 3>>, <<3, 3, 0>> >>
Dg(b, x) == AlnumCode(CASE x = 0 -> 0 [] x = 1 -> 1 [] x = 2 -> b \div 2 [] x = 3 -> b - 1)
Ds(b, p) == [i \in DOMAIN p |-> Dg(IF b >= 100 THEN 10 ELSE b, p[i])]
Lit(b, w, f, neg) == (IF neg THEN C("-") ELSE <<>>) \o Prefix(b) \o Ds(b, Wholes[w]) \o (IF Fracs[f] = <<>> THEN <<>> ELSE C(".") \o Ds(b, Fracs[f]))
                     \o (IF b = 100 THEN C("%") ELSE IF b = 101 THEN (IF w % 2 = 0 THEN C("E3") ELSE C("E-4")) ELSE <<>>)
Ops2 == <<"+", "-", "*", "-", "/", "%", "\\", "&", "<<", "^">>
Reps == <<"binary", "hexadecimal", "octal", "percentage", "scientific", "decimal">>
Funs == <<"bin", "hex", "oct", "dec", "scientific", "abs", "-1 * ">>
Radix == <<Len(Bases) + 1, Len(Wholes), Len(Fracs), 2, Len(Ops2), Len(Bases) + 1, Len(Wholes), Len(Fracs), Len(Reps), Len(Funs)>>
Total == Space1(<<12, 9, 6, 2, 10, 12, 9, 6>>)
Dec(w, f, neg) == (IF neg THEN C("-") ELSE <<>>) \o Ds(10, Wholes[w]) \o (IF Fracs[f] = <<>> THEN <<>> ELSE C(".") \o Ds(10, Fracs[f]))
It(k) == LET d == Digits(k, Radix)
             lit(b, w, f, n) == IF b > Len(Bases) THEN Dec(w, f, n) ELSE Lit(Bases[b], w, f, n)
         IN [a |-> lit(d[1], d[2], d[3], d[4] = 2), b |-> lit(d[6], d[7], d[8], FALSE), op |-> Ops2[d[5]], rep |-> Reps[1 + (k % Len(Reps))], fn |-> Funs[1 + (k % Len(Funs))]]
Start(k) == NewState
Texts(k) == LET e == It(k)
            IN <<e.a, e.b, Bin(e.a, e.op, e.b), e.a \o C(" as ") \o C(e.rep), C(e.fn) \o Par(e.a), C("0 + ") \o e.a, Bin(Bin(e.a, e.op, e.b), "+", C("0b1"))>>
Emit(k) == LET e == It(k)
           IN <<e.a, Bin(e.a, e.op, e.b), e.a \o C(" as ") \o C(e.rep), C(e.fn) \o Par(e.a), JoinNL(<<C("x = ") \o e.b, C("x = x ") \o C(e.op) \o C(" ") \o e.a, C("x"), C("x as ") \o C(e.rep), C("[x, -x, 0 - x]")>>),
                C("'' +$ ") \o e.a, C("[") \o e.b \o C(", ") \o e.a \o C("] - ") \o e.b, FnOf1("sum", e.b \o C(", ") \o e.a)>>
Kinds(r) == IF HasNum(r) THEN LastValue(r).c ELSE [t |-> "?", b |-> 0]
(* what is printed denotes the value, if its expansion is finite            *)
LawReadsBack(k, r) ==
  \A i \in {1, 2, 3} : HasNum(r[i]) =>
     LET v == LastValue(r[i])
         p == PrintNum(v)
         n == StrNum(p[2])
         scaled == RMul(v.r, RBig(BPow(BNat(CastBase(v.c)), Places)))
     IN p[1] /\ v.c.t \notin {"exp", "pct"} /\ RIsInt(scaled) => n[1] = Len(p[2]) + 1 /\ (n[2].k = "any" \/ REq(n[2].r, v.r))
LawFirstNotationWins(k, r) ==
  HasNum(r[3]) => Kinds(r[3]) = IF Kinds(r[1]).t # "none" THEN Kinds(r[1]) ELSE Kinds(r[2])
LawOnlyTheLook(k, r) == SameNumber(r[1], r[4]) /\ SameNumber(r[1], r[6]) /\ (It(k).fn \notin {"abs", "-1 * "} => SameNumber(r[1], r[5]))

----------------------------------------------------------------------------
VARIABLES mcChunk, mcItem, mcSaid
vars == <<mcChunk, mcItem, mcSaid>>
NItems == (Total + Part - 1) \div Part
NChunks == (NItems + PerChunk - 1) \div PerChunk
Init == mcChunk = -1 /\ mcItem = -1 /\ mcSaid = <<>>
Next == \/ mcChunk = -1 /\ mcChunk' \in 0..(NChunks - 1) /\ mcItem' = -1 /\ mcSaid' = <<>>
        \/ /\ mcChunk >= 0 /\ mcItem = -1 /\ mcChunk' = mcChunk
           /\ mcItem' \in {Spread(j) : j \in (mcChunk * PerChunk)..BMin(mcChunk * PerChunk + PerChunk - 1, NItems - 1)}
           /\ mcItem' < Total
           /\ mcSaid' = LET ts == TLCEval(Texts(mcItem')) s0 == TLCEval(Start(mcItem')) IN [i \in DOMAIN ts |-> Ask(s0, ts[i])]
           /\ Taken(mcItem' \div Part) => PrintT("T " \o ToJson(Emit(mcItem')))
Spec == Init /\ [][Next]_vars
ReadsBack == mcItem >= 0 => LawReadsBack(mcItem, mcSaid)
FirstNotationWins == mcItem >= 0 => LawFirstNotationWins(mcItem, mcSaid)
OnlyTheLook == mcItem >= 0 => LawOnlyTheLook(mcItem, mcSaid)
=============================================================================
