----------------------------- MODULE MCInstall -----------------------------
(* Every acyclic feature graph of N features, every pair of requests: the   *)
(* algorithm is a behaviour of the abstract machine.                        *)
EXTENDS Install, IOUtils, Json
Env(n, default) == IF n \in DOMAIN IOEnv THEN atoi(IOEnv[n]) ELSE default
SeedNo == Env("SEED", 1)
Stride == Env("STRIDE", 1)
Part == Env("PART", 1)
N == Env("NODES", 3)

(* f may need only smaller ones, after a renaming; an edge is one of no,    *)
(* dependency, sub-feature, hint, or both of two                            *)
Pairs == TLCEval(SetToSeq({p \in (1..N) \X (1..N) : p[2] < p[1]}))
Pow(a, b) == FoldSet(LAMBDA i, acc : acc * a, 1, 1..b)
NGraphs == Pow(6, Len(Pairs))
Label(k, i) == (k \div Pow(6, i - 1)) % 6
Perms == TLCEval(SetToSeq({s \in [1..N -> 1..N] : \A i, j \in 1..N : s[i] = s[j] => i = j}))
Graph(k, p) ==
  LET nm == Perms[p]
      inv == [x \in 1..N |-> CHOOSE y \in 1..N : nm[y] = x]
      have(f, labels) == SetToSeq({h \in 1..N : \E i \in DOMAIN Pairs : Pairs[i] = <<inv[f], inv[h]>> /\ Label(k, i) \in labels})
  IN [n |-> N, deps |-> [f \in 1..N |-> have(f, {1, 4})], subs |-> [f \in 1..N |-> have(f, {2, 5})],
      after |-> [f \in 1..N |-> have(f, {3, 4, 5})]]
(* requests: sequences of distinct names, at most 3 long, and one unknown   *)
Requests == TLCEval(SetToSeq(UNION {{s \in [1..m -> 0..N] : \A i, j \in 1..m : s[i] = s[j] => i = j} : m \in 1..3}))
NR == Len(Requests)

VARIABLES graph, reqs, wanted, done
vars == <<graph, reqs, wanted, done>>
Pick(k) == <<k % NGraphs, 1 + ((k \div NGraphs) % Len(Perms))>>
Items == NGraphs * Len(Perms)
Chosen == {j * Part + (((j % 9973) * 7919 + SeedNo * 101) % Part) : j \in 0..((Items - 1) \div Part)}
NoGraph == [n |-> 0]
Init == graph = NoGraph /\ reqs = <<>> /\ wanted = {} /\ done = <<>>
Choose == /\ graph = NoGraph
          /\ \E k \in Chosen : k < Items /\ graph' = Graph(Pick(k)[1], Pick(k)[2])
          /\ UNCHANGED <<reqs, wanted, done>>
Request == /\ graph # NoGraph /\ Len(reqs) < 2
           /\ \E r \in 1..NR :
                /\ (r * 7 + Len(done) * 3 + SeedNo) % Stride = 0
                /\ LET names == Requests[r] IN
                   /\ reqs' = Append(reqs, names)
                   /\ wanted' = Wanted(graph, wanted, names)
                   /\ done' = IF Refused(graph, names) THEN done ELSE InstallAll(graph, wanted', done, names)
                   /\ Len(reqs') = 2 => PrintT("T " \o ToJson([g |-> graph, reqs |-> reqs']))
           /\ UNCHANGED graph
Next == Choose \/ Request
Spec == Init /\ [][Next]_vars

Sane == graph # NoGraph => Acyclic(graph)
(* each request's growth is legal for the abstract machine *)
Refines == [][reqs' # reqs => LegalGrowth(graph, wanted', done, done')]_vars
Closed == graph # NoGraph => Set(done) = wanted /\ Closure(graph, wanted) = wanted
Once == \A i, j \in DOMAIN done : done[i] = done[j] => i = j
(* asking again for what is there changes nothing *)
Idempotent == graph # NoGraph => \A r \in Set(reqs) : ~Refused(graph, r) => InstallAll(graph, wanted, done, r) = done
(* naming the same features in another order installs the same features *)
OrderFree == graph # NoGraph /\ reqs # <<>> /\ ~Refused(graph, reqs[1]) =>
               LET w == Wanted(graph, {}, reqs[1]) IN Set(InstallAll(graph, w, <<>>, Reverse(reqs[1]))) = w
=============================================================================
