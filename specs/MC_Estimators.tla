---------------------------- MODULE MC_Estimators ----------------------------
(* Sequences of points with small coordinates *)
EXTENDS Estimators, CSV, Json, IOUtils

CONSTANTS Side, MaxPoints
VARIABLES P
vars == << P >>
Init == P = << >>
Next == Len(P) < MaxPoints /\ \E p \in (0..Side) \X (0..Side) : P' = Append(P, p)
Spec == Init /\ [][Next]_vars

n == Len(P)
C == Correlation(P, Manhattan)
Values == [ i \in 1..n |-> 1000 * P[i][1] ]
Constant == [ i \in 1..n |-> 5000 ]
(* The last value counts all pairs, values increase. *)
Counts == n >= 2 =>
  LET c == TLCEval(C) IN
    /\ (c # << >> => c[Len(c)][2] = (n * (n - 1)) \div 2)
    /\ \A i \in 1..Len(c) - 1 : c[i][1] < c[i + 1][1] /\ c[i][2] < c[i + 1][2]
SelfFirst == \A i \in 1..n : Sorted(P, i, Manhattan)[1] = 0
(* Smoothing keeps constants and stays within the range of the values. *)
KeepsConstants == n >= 1 => Smooth(P, Constant, 1, Manhattan) = Constant
WithinRange == n >= 1 => \A i \in 1..n : Smooth(P, Values, 1, Manhattan)[i] \in 0..(1000 * Side)
(* Scatter matrices are positive semidefinite; collinear points have rank 1. *)
Semidefinite == n >= 1 => LET S == Scatter(P) IN S[1][1] >= 0 /\ S[2][2] >= 0 /\ S[1][1] * S[2][2] >= S[1][2] * S[2][1]
Collinear == (n >= 1 /\ \A i \in 1..n : P[i][1] = P[i][2]) => LET S == Scatter(P) IN S[1][1] * S[2][2] = S[1][2] * S[2][1]
Export == CSVWrite("%1$s", <<ToJson(P)>>, IOEnv.EXPORT)
=============================================================================
