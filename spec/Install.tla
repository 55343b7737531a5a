------------------------------ MODULE Install ------------------------------
(* Installing features.  A feature graph G gives every feature 1..G.n its   *)
(* dependencies, its sub-features and the features that, if they are wanted *)
(* too, have to be installed before it.  A request names features; what it  *)
(* makes wanted is their closure; installing proceeds one feature at a time.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions, TLC

Set(s) == Range(s)
Known(G) == 1..G.n
Deps(G, f) == Set(G.deps[f])
Subs(G, f) == Set(G.subs[f])
After(G, f) == Set(G.after[f])
Needs(G, f) == Deps(G, f) \cup Subs(G, f)

RECURSIVE Closure(_, _)
Closure(G, F) == LET more == F \cup UNION {Needs(G, f) : f \in F}
                 IN IF more = F THEN F ELSE Closure(G, more)
Refused(G, names) == \E i \in DOMAIN names : names[i] \notin Known(G)

(* nothing is needed, directly or not, by what it needs or comes after *)
RECURSIVE Grounded(_, _)
Grounded(G, F) == LET more == F \cup {f \in Known(G) : (Needs(G, f) \cup After(G, f)) \subseteq F}
                  IN IF more = F THEN F ELSE Grounded(G, more)
Acyclic(G) == Grounded(G, {}) = Known(G)

(* the abstract machine: wanted is a set, done a sequence *)
CanInstall(G, wanted, done, f) ==
  /\ f \in wanted \ Set(done)
  /\ Needs(G, f) \subseteq Set(done)
  /\ (After(G, f) \cap wanted) \subseteq Set(done)
Wanted(G, wanted, names) == IF Refused(G, names) THEN wanted ELSE wanted \cup Closure(G, Set(names))
(* done grew from old by legal steps to everything wanted *)
LegalGrowth(G, wanted, old, done) ==
  /\ Len(done) >= Len(old) /\ SubSeq(done, 1, Len(old)) = old
  /\ \A k \in (Len(old) + 1)..Len(done) : CanInstall(G, wanted, SubSeq(done, 1, k - 1), done[k])
  /\ Set(done) = wanted

(* the algorithm: depth first, in the order named *)
RECURSIVE InstallAll(_, _, _, _)
InstallAll(G, wanted, done, names) ==
  IF names = <<>> THEN done
  ELSE LET f == Head(names)
       IN IF f \in Set(done) THEN InstallAll(G, wanted, done, Tail(names))
          ELSE LET hints == SelectSeq(G.after[f], LAMBDA h : h \in wanted)
                   d1 == InstallAll(G, wanted, done, hints)
                   d2 == InstallAll(G, wanted, d1, G.deps[f])
                   d3 == InstallAll(G, wanted, d2, G.subs[f])
               IN InstallAll(G, wanted, Append(d3, f), Tail(names))

(* what a layout map (a sequence of groups) looks like with only the members*)
(* of S: the installed parsers or operators, in order                       *)
Layout(map, S) == SelectSeq([i \in DOMAIN map |-> map[i] \cap S], LAMBDA grp : grp # {})
(* adding one member: into its group if that has members yet, else before   *)
(* the first group that comes later in the map                              *)
Place(map, x) == CHOOSE i \in DOMAIN map : x \in map[i]
AddTo(map, groups, x) ==
  LET same == {i \in DOMAIN groups : \E y \in groups[i] : Place(map, y) = Place(map, x)}
      later == {i \in DOMAIN groups : \E y \in groups[i] : Place(map, y) > Place(map, x)}
  IN IF same # {} THEN [groups EXCEPT ![Min(same)] = @ \cup {x}]
     ELSE IF later # {} THEN InsertAt(groups, Min(later), {x})
     ELSE Append(groups, {x})
=============================================================================
