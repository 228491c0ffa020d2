--------------------------- MODULE Trace_CoverTree ---------------------------
(* After every insertion: the points, their levels and the structure's own   *)
(* checks.  Points are pairs, distances are L1 in units of 1/in.unit; the    *)
(* unit is part of every operation.                                          *)
EXTENDS CoverTree, StatefulTrace

AbsDiff(a, b) == IF a < b THEN b - a ELSE a - b
Dist(P) == [p, q \in P |-> AbsDiff(p[1], q[1]) + AbsDiff(p[2], q[2])]

StartTree(in) == {}

SetOf(s) == {s[k] : k \in 1..Len(s)}

StepTree(st, op, res) ==
  LET P == IF op.op = "insert" THEN st \cup {op.p} ELSE st \cup SetOf(op.ps)
      lv == [p \in P |-> CHOOSE l \in {x[1] : x \in SetOf(res.levels)} : <<l, p>> \in SetOf(res.levels)]
      ok == /\ Len(res.points) = Cardinality(P) /\ SetOf(res.points) = P
            /\ Len(res.levels) = Cardinality(P) /\ {x[2] : x \in SetOf(res.levels)} = P
            /\ SetOf(res.toLevel) = SetOf(res.levels) /\ Len(res.toLevel) = Cardinality(P)
            /\ \E x \in SetOf(res.levels) : x[1] = res.level /\ x[2] = res.points[1]
            /\ \A x \in SetOf(res.levels) : x[1] <= res.level
            /\ LevelsRealisable(lv, op.unit, Dist(P))
            /\ res.valid = <<TRUE, TRUE, TRUE, TRUE>>
  IN [ok |-> ok, st |-> P]
=============================================================================
