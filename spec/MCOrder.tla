------------------------------ MODULE MCOrder ------------------------------
(* Adding operators or parsers one by one, in any order and repeatedly,     *)
(* always gives the layout map restricted to what was added.                *)
EXTENDS Install
Map == <<{1}, {2, 3}, {4}, {5, 6, 7}, {8}, {9, 10}>>
Members == UNION Set(Map)
VARIABLES groups, added
Init == groups = <<>> /\ added = {}
Next == \E x \in Members : groups' = AddTo(Map, groups, x) /\ added' = added \cup {x}
Spec == Init /\ [][Next]_<<groups, added>>
Sorted == groups = Layout(Map, added)
=============================================================================
