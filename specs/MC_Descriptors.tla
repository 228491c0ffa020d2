---------------------------- MODULE MC_Descriptors ----------------------------
(* Point sets on a small grid: laws of the descriptors.                      *)
EXTENDS PointCloud, CSV, Json, IOUtils

CONSTANTS Side, MaxPoints

Grid == { << x, y >> : x \in 0..Side, y \in 0..Side }

VARIABLE P
Init == P = << >>
Next == Len(P) < MaxPoints /\ \E q \in Grid : P' = Append(P, q)
Spec == Init /\ [][Next]_P

n == Len(P)
DistM == [ i \in 1..n |-> [ j \in 1..n |-> Manhattan(P[i], P[j]) ] ]
DistE == [ i \in 1..n |-> [ j \in 1..n |-> Square(P[i], P[j]) ] ]

(* Every pair of points with a third one: of three points, at least one    *)
(* lies in the lune of the others (the two longest sides).                  *)
LensTotal == \A D \in {TLCEval(DistM), TLCEval(DistE)} :
  LET total == SumSeq([ k \in 1..n |-> LensDepth(D, n, k) ])
      triples == Cardinality({ s \in SUBSET (1..n) : Cardinality(s) = 3 })
  IN total >= triples /\ total <= 3 * triples
(* All points being nearest is the sum of all distances. *)
NearestAll == LET D == TLCEval(DistM) IN
  \A i \in 1..n : /\ NearestSum(D, n, i, n) = EccentricitySum(D, n, i, 1)
                  /\ NearestSum(D, n, i, 1) = 0
                  /\ \A k \in 1..(n - 1) : NearestSum(D, n, i, k) <= NearestSum(D, n, i, k + 1)
MaxBelowSum == LET D == TLCEval(DistM) IN
  \A i \in 1..n : /\ Eccentricity0(D, n, i) <= EccentricitySum(D, n, i, 1)
                  /\ EccentricitySum(D, n, i, 1) <= n * Eccentricity0(D, n, i)
(* The descriptors do not depend on the order of points. *)
Reversed == LET D == TLCEval(DistE)
                B == [ i \in 1..n |-> [ j \in 1..n |-> D[n + 1 - i][n + 1 - j] ] ]
            IN \A i \in 1..n : /\ LensDepth(D, n, i) = LensDepth(B, n, n + 1 - i)
                               /\ EccentricitySum(D, n, i, 1) = EccentricitySum(B, n, n + 1 - i, 1)
Export == n > 0 => CSVWrite("%1$s", <<ToJson(P)>>, IOEnv.EXPORT)
=============================================================================
