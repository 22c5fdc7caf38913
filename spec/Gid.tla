-------------------------------- MODULE Gid --------------------------------
(* The order of ids is a strict total order that agrees with equality, and the *)
(* printed form tells ids apart; ids of N bytes drawn from B.                  *)
EXTENDS GidOps, TLC
CONSTANTS B, N
Ids == [1..N -> B]
VARIABLES a, b
Init == a \in Ids /\ b \in Ids
Next == UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b>>
Trichotomy == LET n == (IF GidLess(a, b) THEN 1 ELSE 0) + (IF GidLess(b, a) THEN 1 ELSE 0) + (IF a = b THEN 1 ELSE 0) IN n = 1
Transitive == \A c \in Ids : (GidLess(a, b) /\ GidLess(b, c)) => GidLess(a, c)
TellsApart == (Shown(a) = Shown(b)) = (a = b)
(* the most significant byte comes first *)
FirstDecides == a[1] < b[1] => GidLess(a, b)
=============================================================================
