----------------------------- MODULE Enumerate -----------------------------
(* Helpers of the models that enumerate a finite space of programs: items   *)
(* are numbered, a number is decoded into choices, and a share of the items *)
(* is printed for replay into the implementation.                           *)
EXTENDS Session, IOUtils, Json

Env(n, default) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE default
SeedNo == Env("SEED", 1)
Stride == Env("STRIDE", 1)      \* every how many items one is printed
Part == Env("PART", 1)          \* every how many items one is model-checked
Deep == Env("DEEP", 0)
(* the item taken of the j-th group of Part items; whether it is replayed    *)
Spread(j) == j * Part + (((j % 9973) * 7919 + SeedNo * 101) % Part)
Taken(j) == ((j % 9973) * 31 + (j \div 9973) + SeedNo * 103) % Stride = 0

(* the digits of k in mixed radix *)
RECURSIVE Digits(_, _)
Digits(k, radix) == IF radix = <<>> THEN <<>> ELSE <<1 + (k % Head(radix))>> \o Digits(k \div Head(radix), Tail(radix))
Space1(radix) == FoldLeft(LAMBDA acc, r : acc * r, 1, radix)

G0 == [cm |-> 35, tm |-> <<NL>>, q |-> 39, es |-> 92, ptr |-> <<64>>, simp |-> TRUE,
       pref |-> SystemNames, files |-> EmptyVars,
       arr |-> [open |-> <<91>>, range |-> <<46, 46>>, step |-> C("step"), param |-> <<44>>, close |-> <<93>>]]
Flag(po, sl, is) == [po |-> po, sl |-> sl, is |-> is]

Cat(parts) == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, parts)
Par(t) == <<40>> \o t \o <<41>>
RECURSIVE JoinNL(_)
JoinNL(ts) == IF Len(ts) = 0 THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o <<NL>> \o JoinNL(Tail(ts))

(* what a call answers, without positions *)
Answers(r) == [k |-> r.k, vs |-> [i \in DOMAIN r.rs |-> IF r.rs[i].has THEN r.rs[i].v ELSE NilV], v |-> r.S.v]
Ask(S, t) == CallText(G0, S, t, Flags0)
LastValue(r) == r.rs[Len(r.rs)].v

HasNum(r) == r.k = "ok" /\ LastValue(r).k = "num"
NumAns(r) == LastValue(r).r
(* two programs answer the same, unless the specification leaves one open   *)
SameAnswer(a, b) == a.k = "any" \/ b.k = "any" \/ (a.k = b.k /\ (a.k = "ok" => LastValue(a) = LastValue(b)))
SameNumber(a, b) == a.k = "any" \/ b.k = "any" \/ (a.k = b.k /\ (a.k = "ok" => LastValue(a).k = "num" /\ LastValue(b).k = "num" /\ REq(NumAns(a), NumAns(b))))
YesIs(r, b) == r.k = "any" \/ (r.k = "ok" /\ LastValue(r) = BoolV(b))
Bin(a, op, b) == a \o C(" ") \o C(op) \o C(" ") \o b
FnOf1(f, a) == C(f) \o Par(a)
FnOf2(f, a, b) == C(f) \o Par(a \o C(", ") \o b)

(* TLC model: items are chunked so that the workers share them *)
PerChunk == 8
=============================================================================
