---------------------------- MODULE Trace_Matching ----------------------------
EXTENDS Matching, FunctionalTrace

AcceptAssignment(e) ==
  LET C == e.in.C
      n == Len(C)
      M == e.out.matching                \* pairs of indices counted from zero
      total == SumOf([k \in 1..Len(M) |-> C[M[k][1] + 1][M[k][2] + 1]])
      best == IF n <= 6 THEN MinAssignment(C) ELSE SumOf(e.in.u) + SumOf(e.in.v)
  IN /\ IsPermutation(n, M)
     /\ \A k \in 1..Len(M) : M[k][1] \in 0..n-1 /\ M[k][2] \in 0..n-1
     /\ {M[k] : k \in 1..n} = {e.out.zeros[k] : k \in 1..Len(e.out.zeros)} /\ Len(e.out.zeros) = n
     /\ n <= 6 \/ DualFeasible(C, e.in.u, e.in.v)
     /\ total = best
     /\ e.out.cost = total

Every(q, v) == \A k \in 1..Len(q) : q[k] = v

(* The bottleneck distance is claimed for diagrams of the same size whose    *)
(* points are not closer to the diagonal than they are matched with each     *)
(* other (see KNOWN_FINDINGS.md for the others).                             *)
AcceptBottleneck(A, B, q) ==
  Len(A) = Len(B) =>
    LET v == PerfectBottleneck(A, B) IN
    IF \A h \in AllHalves(A, B) : v <= h THEN v = Bottleneck(A, B) /\ Every(q, v)
    ELSE \A k \in 1..Len(q) : 0 <= q[k] /\ q[k] <= v

AcceptKnown(e) == Every(e.out.bottleneck, Bottleneck(e.in.A, e.in.B))

AcceptDistances(e) ==
  LET A == e.in.A  B == e.in.B IN
  /\ AcceptBottleneck(A, B, e.out.bottleneck)
  /\ \A p \in 1..3 : Every(e.out.wasserstein[p], WassersteinPower(A, B, p))
  /\ Every(e.out.squares, SquaredWasserstein(A, B))
  /\ e.out.refused = 2

(* Certificates: e.in.a[p], e.in.b[p] potentials; e.in.M, e.in.S for the     *)
(* bottleneck distance e.in.v                                                *)
AcceptLarge(e) ==
  LET A == e.in.A  B == e.in.B  c == e.in.cert
      costs == MatchedCosts(A, B, c.M)
  IN /\ \A p \in 1..2 : /\ PotentialsOK(A, B, p, c.a[p], c.b[p])
                        /\ Every(e.out.wasserstein[p], SumOf(c.a[p]) + SumOf(c.b[p]))
     /\ PartialMatching(A, B, c.M)
     /\ \A k \in 1..Len(costs) : costs[k] <= c.v
     /\ \/ c.v = 0
        \/ Blocked(A, B, {c.SA[k] : k \in 1..Len(c.SA)}, c.v)
        \/ Blocked(B, A, {c.SB[k] : k \in 1..Len(c.SB)}, c.v)
     /\ Len(c.M) = Len(A) /\ Len(A) = Len(B) /\ (\A h \in AllHalves(A, B) : c.v <= h) => Every(e.out.bottleneck, c.v)

AcceptPointSets(e) ==
  LET A == e.in.A  B == e.in.B
      oneEmpty == (A = <<>>) # (B = <<>>)
  IN /\ Every(e.out.hausdorff, Hausdorff(A, B))
     /\ oneEmpty \/ Every(e.out.nearest, TwiceNearestSum(A, B))
     /\ IF oneEmpty THEN \A k \in 1..Len(e.out.sum) : e.out.sum[k] >= Infinity
        ELSE Every(e.out.sum, TwiceNearestSum(A, B))
     /\ A # <<>> /\ B # <<>> /\ (\A k \in 1..Len(A) : ~Unpaired(A[k])) /\ (\A k \in 1..Len(B) : ~Unpaired(B[k]))
        => /\ Every(e.out.squaredHausdorff, SquaredHausdorff(A, B))
           /\ Every(e.out.squaredSums, TwiceSquaredSum(A, B))
=============================================================================
