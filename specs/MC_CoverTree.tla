----------------------------- MODULE MC_CoverTree -----------------------------
(* All insertion sequences of few points on a line.                          *)
EXTENDS CoverTree, TLC, CSV, Json, IOUtils

CONSTANTS Points, Unit, MaxN

VARIABLES T, order

Dist == [p, q \in Points |-> IF p < q THEN q - p ELSE p - q]
Init == T = [x \in {} |-> [lvl |-> 0, par |-> 0]] /\ order = <<>>
Next == /\ Len(order) < MaxN
        /\ \E p \in Points \ DOMAIN T :
             /\ T' \in Insert(T, p, Unit, Dist)
             /\ order' = Append(order, p)
Spec == Init /\ [][Next]_<<T, order>>

Contains_ == DOMAIN T = {order[k] : k \in 1..Len(order)}
Valid == T # [x \in {} |-> [lvl |-> 0, par |-> 0]] => ValidTree(T, Unit, Dist)
(* What the levels show is enough to recognise the tree *)
Recognised == LevelsRealisable([p \in DOMAIN T |-> T[p].lvl], Unit, Dist)

Export == Len(order) = MaxN => CSVWrite("%1$s", <<ToJson(order)>>, IOEnv.EXPORT)
=============================================================================
