------------------------------ MODULE Matching ------------------------------
(* Minimum-cost assignments; bottleneck and Wasserstein distances between   *)
(* diagrams; distances between point sets.  All costs are integers.         *)
EXTENDS Diagrams, TLC

(* Minimum over all permutations, row by row over sets of used columns *)
MinAssignment(C) ==
  LET n == Len(C)
      f == FoldLeft(LAMBDA acc, k :
             TLCEval([T \in kSubset(k, 1..n) |-> Min({acc[T \ {c}] + C[k][c] : c \in T})]),
             [T \in {{}} |-> 0], [k \in 1..n |-> k])
  IN f[1..n]

(* Potentials prove a lower bound for every assignment *)
DualFeasible(C, u, v) == \A i \in 1..Len(C), j \in 1..Len(C) : u[i] + v[j] <= C[i][j]

IsPermutation(n, M) == /\ Cardinality({M[k][1] : k \in 1..Len(M)}) = n
                       /\ Cardinality({M[k][2] : k \in 1..Len(M)}) = n
                       /\ Len(M) = n

(* Distances between points; Half is the distance to the diagonal.  Points   *)
(* have even coordinates.                                                    *)
Dist(p, q) ==
  LET dx == Abs(p[1] - q[1])
      dy == IF Unpaired(p) /\ Unpaired(q) THEN 0
            ELSE IF Unpaired(p) \/ Unpaired(q) THEN Infinity ELSE Abs(p[2] - q[2])
  IN IF dx > dy THEN dx ELSE dy
Half(p) == Abs(p[2] - p[1]) \div 2

(* Optimal matchings of sequences A and B of points.  plus(_, _) combines    *)
(* costs (sum or maximum).                                                   *)
Optimum(A, B, cost(_, _), diag(_), plus(_, _)) ==
  LET m == Len(B)
      f == FoldLeft(LAMBDA acc, k :
             TLCEval([T \in SUBSET (1..m) |->
               Min({plus(acc[T], diag(A[k]))} \cup {plus(acc[T \ {c}], cost(A[k], B[c])) : c \in T})]),
             [T \in SUBSET (1..m) |-> IF T = {} THEN 0 ELSE Infinity], [k \in 1..Len(A) |-> k])
      rest(T) == FoldLeft(LAMBDA x, c : IF c \in T THEN x ELSE plus(x, diag(B[c])), 0, [k \in 1..m |-> k])
  IN Min({plus(f[T], rest(T)) : T \in SUBSET (1..m)})

Bottleneck(A, B) == Optimum(A, B, Dist, Half, LAMBDA x, y : IF x > y THEN x ELSE y)
(* The same without the diagonal; only for diagrams of the same size *)
PerfectBottleneck(A, B) == Optimum(A, B, Dist, LAMBDA p : Infinity, LAMBDA x, y : IF x > y THEN x ELSE y)
AllHalves(A, B) == {Half(A[i]) : i \in 1..Len(A)} \cup {Half(B[j]) : j \in 1..Len(B)}
Saturating(x, y) == IF x >= Infinity \/ y >= Infinity THEN Infinity ELSE x + y
WassersteinPower(A, B, p) ==
  Optimum(A, B, LAMBDA a, b : Power(Dist(a, b), p), LAMBDA a : Power(Half(a), p), Saturating)

(* The same with squared Euclidean distances between points *)
Squared(p, q) == ((p[1] - q[1]) * (p[1] - q[1])) + ((p[2] - q[2]) * (p[2] - q[2]))
SquaredHalf(p) == 2 * (Half(p) * Half(p))
SquaredWasserstein(A, B) == Optimum(A, B, Squared, SquaredHalf, Saturating)

(* Certificates for diagrams that are too large for enumeration.             *)
(* a, b: potentials of the points; their sum is a lower bound.               *)
PotentialsOK(A, B, p, a, b) ==
  /\ \A i \in 1..Len(A) : a[i] <= Power(Half(A[i]), p)
  /\ \A j \in 1..Len(B) : b[j] <= Power(Half(B[j]), p)
  /\ \A i \in 1..Len(A), j \in 1..Len(B) : a[i] + b[j] <= Power(Dist(A[i], B[j]), p)
(* pairs: a partial matching; its cost is an upper bound.                    *)
PartialMatching(A, B, M) ==
  /\ \A k, l \in 1..Len(M) : k # l => M[k][1] # M[l][1] /\ M[k][2] # M[l][2]
  /\ \A k \in 1..Len(M) : M[k][1] \in 1..Len(A) /\ M[k][2] \in 1..Len(B)
FreeOf(q, used) == SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : k \notin used)
HalvesOf(q, r) == [k \in 1..Len(r) |-> Half(q[r[k]])]
MatchedCosts(A, B, M) ==
  [k \in 1..Len(M) |-> Dist(A[M[k][1]], B[M[k][2]])]
  \o HalvesOf(A, FreeOf(A, {M[k][1] : k \in 1..Len(M)}))
  \o HalvesOf(B, FreeOf(B, {M[k][2] : k \in 1..Len(M)}))
(* A set S of points of A that cannot go to the diagonal for less than v has *)
(* fewer partners at a cost less than v than it has points.                  *)
Blocked(A, B, S, v) ==
  /\ \A i \in S : Half(A[i]) >= v
  /\ Cardinality({j \in 1..Len(B) : \E i \in S : Dist(A[i], B[j]) < v}) < Cardinality(S)

(* Distances between point sets *)
Nearest(p, Q) == Min({Dist(p, Q[j]) : j \in 1..Len(Q)})
OneSided(A, B) == [i \in 1..Len(A) |-> Nearest(A[i], B)]
Hausdorff(A, B) ==
  IF A = <<>> /\ B = <<>> THEN 0
  ELSE IF A = <<>> \/ B = <<>> THEN Infinity
  ELSE Max({OneSided(A, B)[i] : i \in 1..Len(A)} \cup {OneSided(B, A)[j] : j \in 1..Len(B)})
SquaredNearest(A, B) == [i \in 1..Len(A) |-> Min({Squared(A[i], B[j]) : j \in 1..Len(B)})]
SquaredHausdorff(A, B) ==
  Max({SquaredNearest(A, B)[i] : i \in 1..Len(A)} \cup {SquaredNearest(B, A)[j] : j \in 1..Len(B)})
TwiceSquaredSum(A, B) == SumOf(SquaredNearest(A, B)) + SumOf(SquaredNearest(B, A))
TwiceNearestSum(A, B) == SumOf(OneSided(A, B)) + SumOf(OneSided(B, A))
=============================================================================
