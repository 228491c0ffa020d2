----------------------------- MODULE MC_Matching -----------------------------
(* All pairs of small diagrams on a grid: metric laws of the distances.      *)
EXTENDS Matching, CSV, Json, IOUtils

CONSTANTS Grid, MaxPoints

VARIABLES A, B, bo, ws

PointsOf == {p \in Grid \X Grid : p[1] <= p[2]}
Sorted(q) == \A k \in 1..Len(q)-1 : q[k][1] < q[k+1][1] \/ (q[k][1] = q[k+1][1] /\ q[k][2] <= q[k+1][2])
DiagramsOf == {q \in UNION {[1..n -> PointsOf] : n \in 0..MaxPoints} : Sorted(q)}

Init == /\ A \in DiagramsOf /\ B \in DiagramsOf
        /\ bo = Bottleneck(A, B) /\ ws = <<WassersteinPower(A, B, 1), WassersteinPower(A, B, 2)>>
Next == UNCHANGED <<A, B, bo, ws>>
Spec == Init /\ [][Next]_<<A, B, bo, ws>>

OffDiagonal(q) == SelectSeq(q, LAMBDA p : ~OnDiagonal(p))
Symmetric == bo = Bottleneck(B, A) /\ ws[1] = WassersteinPower(B, A, 1)
ZeroOK == (bo = 0) = (OffDiagonal(A) = OffDiagonal(B)) /\ (ws[1] = 0) = (bo = 0) /\ (ws[2] = 0) = (bo = 0)
DiagonalIrrelevant == bo = Bottleneck(OffDiagonal(A), B) /\ ws[2] = WassersteinPower(OffDiagonal(A), B, 2)
OrderIrrelevant == bo = Bottleneck(Reverse(A), B) /\ ws[1] = WassersteinPower(Reverse(A), B, 1)
(* Largest of the costs, square root of the sum of squares, sum *)
Ordered == bo * bo <= ws[2] /\ ws[2] <= ws[1] * ws[1]
(* Distance to the empty diagram *)
EmptyOK == B = <<>> =>
  bo = Max({Half(A[k]) : k \in 1..Len(A)} \cup {0}) /\ ws[1] = SumOf([k \in 1..Len(A) |-> Half(A[k])])
Enumerated == LET all == {M \in UNION {[1..n -> (1..Len(A)) \X (1..Len(B))] : n \in 0..Min({Len(A), Len(B)})} : PartialMatching(A, B, M)}
              IN /\ ws[1] = Min({SumOf(MatchedCosts(A, B, M)) : M \in all})
                 /\ bo = Min({Max({0} \cup {MatchedCosts(A, B, M)[k] : k \in 1..Len(MatchedCosts(A, B, M))}) : M \in all})
(* Squared Euclidean distances lie between one and two squared maximum distances *)
SquaredOK == ws[2] <= SquaredWasserstein(A, B) /\ SquaredWasserstein(A, B) <= 2 * ws[2]
             /\ SquaredWasserstein(A, B) = SquaredWasserstein(B, A)
HausdorffOK == Hausdorff(A, B) = Hausdorff(B, A) /\ (Hausdorff(A, B) = 0) = ({A[k] : k \in 1..Len(A)} = {B[k] : k \in 1..Len(B)})
TriangleOK == A # <<>> /\ B # <<>> => \A C \in {<<p>> : p \in PointsOf} :
  /\ bo <= Bottleneck(A, C) + Bottleneck(C, B)
  /\ Hausdorff(A, B) <= Hausdorff(A, C) + Hausdorff(C, B)

Export == CSVWrite("%1$s", <<ToJson(<<A, B>>)>>, IOEnv.EXPORT)
=============================================================================
