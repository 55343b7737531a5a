---------------------------- MODULE JudgeInstall ----------------------------
(* Recorded installations judged by the abstract machine of Install.        *)
EXTENDS Install, IOUtils, Json
Cases == TLCEval(JsonDeserialize(IOEnv.CASES))
NCases == Len(Cases)

(* a case: g the graph, runs a sequence of calculators that got permutations*)
(* of the same requests; a run is the sequence of its calls, a call has     *)
(* names, skip (whether unknown names are to be ignored), refused (the outcome), done (features in the order completed,     *)
(* from the start), installed, parsers, ops (sequence of sequences), funcs, *)
(* rest, answers (fingerprints)                                             *)
RECURSIVE JudgeRun(_, _, _, _, _, _)
JudgeRun(c, run, i, wanted, done, bad) ==
  IF i > Len(run) THEN bad
  ELSE LET r == run[i]
           G == c.g
           names == IF r.skip = 1 THEN SelectSeq(r.names, LAMBDA f : f \in Known(G)) ELSE r.names
           ref == Refused(G, names)
           w == Wanted(G, wanted, names)
           (* a real feature asked for too late for an installed one that *)
           (* should have come after it: left open from here on           *)
           late == c.strict = 0 /\ \E f \in Set(done) : (After(G, f) \cap w) \ wanted # {}
           legal == LegalGrowth(G, w, done, r.done)
           what == (IF (r.refused = 1) # ref THEN {"refused"} ELSE {})
                   \cup (IF r.crash = 1 THEN {"exception"} ELSE {})
                   \cup (IF Set(r.done) # w THEN {"closure"} ELSE {})
                   \cup (IF Set(r.installed) # w THEN {"installed"} ELSE {})
                   \cup (IF Cardinality(Set(r.done)) # Len(r.done) THEN {"repeated"} ELSE {})
                   \cup (IF Set(r.done) = w /\ Cardinality(w) = Len(r.done) /\ ~legal THEN {"order"} ELSE {})
                   \cup (IF r.parsers # SelectSeq(c.parsermap, LAMBDA p : p \in UNION {Set(c.own.parsers[f]) : f \in w}) THEN {"parsers"} ELSE {})
                   \cup (LET want == Layout([k \in DOMAIN c.opmap |-> Set(c.opmap[k])], UNION {Set(c.own.ops[f]) : f \in w})
                         IN IF [k \in DOMAIN r.ops |-> Set(r.ops[k])] # want THEN {"operators"} ELSE {})
                   \cup (IF Set(r.funcs) # UNION {Set(c.own.funcs[f]) : f \in w} THEN {"functions"} ELSE {})
       IN IF late THEN bad ELSE JudgeRun(c, run, i + 1, w, r.done, bad \cup {<<i, x>> : x \in what})
(* runs of the same case end alike *)
RECURSIVE WantedAfter(_, _, _)
WantedAfter(c, run, i) == IF i = 0 THEN {} ELSE LET r == run[i] IN
  Wanted(c.g, WantedAfter(c, run, i - 1), IF r.skip = 1 THEN SelectSeq(r.names, LAMBDA f : f \in Known(c.g)) ELSE r.names)
LateRun(c, run) == c.strict = 0 /\ \E i \in 2..Len(run) :
  LET before == WantedAfter(c, run, i - 1) IN \E f \in before : (After(c.g, f) \cap WantedAfter(c, run, i)) \ before # {}
Alike(c) == IF LateRun(c, c.runs[1]) THEN {} ELSE LET last(k) == c.runs[k][Len(c.runs[k])]
            IN UNION {(IF last(k).rest # last(1).rest THEN {<<k, "contents">>} ELSE {})
                      \cup (IF last(k).answers # last(1).answers THEN {<<k, "answers">>} ELSE {}) : k \in DOMAIN c.runs}
Verdict(c) == UNION {JudgeRun(c, c.runs[k], 1, {}, <<>>, {}) : k \in DOMAIN c.runs} \cup Alike(c)
              \cup (IF Acyclic(c.g) THEN {} ELSE {<<0, "cyclic">>})
VARIABLE judged
Init == judged = 0
Next == judged = 0 /\ judged' \in 1..NCases /\ PrintT(<<"V", judged', Verdict(Cases[judged'])>>)
Spec == Init /\ [][Next]_judged
=============================================================================
