----------------------------- MODULE MC_Kernels -----------------------------
(* Two diagrams grow by one point per step.                                   *)
EXTENDS Kernels, CSV, Json, IOUtils

CONSTANTS Side, MaxPoints

VARIABLES D, E
vars == << D, E >>
Points == { p \in (0..Side) \X (0..Side) : p[1] <= p[2] }
Init == D = << >> /\ E = << >>
Next == /\ Len(D) + Len(E) < MaxPoints
        /\ \E p \in Points : \/ D' = Append(D, p) /\ UNCHANGED E
                             \/ E' = Append(E, p) /\ UNCHANGED D
Spec == Init /\ [][Next]_vars

Backwards(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
Symmetric == /\ MultiScale(D, E, 1) = MultiScale(E, D, 1) /\ MultiScale(D, E, 2) = MultiScale(E, D, 2)
             /\ Gauss(D, E) = Gauss(E, D) /\ Linear(D, E) = Linear(E, D)
(* The diagonal contributes nothing. *)
Diagonal == MultiScale(Append(D, << 1, 1 >>), E, 1) = MultiScale(D, E, 1)
Semidefinite == MultiScaleSquare(D, E) >= -16 /\ GaussSquare(D, E) >= -16 /\ LinearSquare(D, E) >= 0
CauchySchwarz == Square(MultiScale(D, E, 1) \div 1024)
                 <= (MultiScale(D, D, 1) \div 1024 + 4) * (MultiScale(E, E, 1) \div 1024 + 4)
Additive == MultiScale(D \o E, E, 1) = MultiScale(D, E, 1) + MultiScale(E, E, 1)
OrderFree == MultiScale(Backwards(D), E, 1) = MultiScale(D, E, 1) /\ LinearSquare(D, Backwards(D)) = 0
DensityBounds == \A x \in 0..8 : LET data == [ i \in 1..Len(D) |-> 4 * D[i][1] + D[i][2] ] IN
  Epanechnikov(data, x) >= 0 /\ Epanechnikov(data, x) <= 48 * Len(D) /\ GaussDensity(data, x) <= Unit * Len(D)
Export == CSVWrite("%1$s", <<ToJson(<<D, E>>)>>, IOEnv.EXPORT)
=============================================================================
