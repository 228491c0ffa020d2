----------------------------- MODULE Summaries -----------------------------
(* Summaries of persistence diagrams.  A diagram is a sequence of points     *)
(* << x, y >> with integer coordinates.                                      *)
EXTENDS Integers, Sequences, FiniteSets, Logarithms, TLC

AbsOf(i) == IF i < 0 THEN -i ELSE i
RECURSIVE Total(_)
Total(s) == IF s = << >> THEN 0 ELSE s[1] + Total(Tail(s))
MaxOf(S) == CHOOSE v \in S : \A w \in S : w <= v
MinOf(S) == CHOOSE v \in S : \A w \in S : w >= v

(* Envelope: over every x + y, the largest y - x among the points there *)
Mids(D) == { D[i][1] + D[i][2] : i \in 1..Len(D) }
EnvelopeAt(D, m) == MaxOf({ D[i][2] - D[i][1] : i \in { j \in 1..Len(D) : D[j][1] + D[j][2] = m } })

(* The entropy of a distribution given by natural numbers; the unit is 10^-5 *)
Weighted(c) == TLCEval([ i \in 1..Len(c) |-> IF c[i] = 0 THEN 0 ELSE c[i] * Log2(c[i]) ])
Entropy(c) == LET T == Total(c) IN (Log2(T) * T - Total(Weighted(c))) \div T
CloseTo(a, b) == AbsOf(a - b) <= 3

Persistences(D) == TLCEval([ i \in 1..Len(D) |-> AbsOf(D[i][2] - D[i][1]) ])

SquaredDistance(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
NearestSquares(D) == TLCEval([ i \in 1..Len(D) |-> MinOf({ SquaredDistance(D[i], D[j]) : j \in (1..Len(D)) \ {i} }) ])

(* A grid of n times n cells whose first and last cells start at the least   *)
(* and at the greatest coordinate                                            *)
Cell(v, lo, hi, n) == IF lo = hi THEN 0 ELSE ((v - lo) * (n - 1)) \div (hi - lo)
Lows(D, k) == MinOf({ D[i][k] : i \in 1..Len(D) })
Highs(D, k) == MaxOf({ D[i][k] : i \in 1..Len(D) })
(* The library grids y and -x. *)
CellOf(D, i, n) == << Cell(D[i][2], Lows(D, 2), Highs(D, 2), n),
                      Cell(-D[i][1], -Highs(D, 1), -Lows(D, 1), n) >>
GridCounts(D, n) ==
  LET cells == TLCEval([ i \in 1..Len(D) |-> CellOf(D, i, n) ])
      first == { i \in 1..Len(D) : \A j \in 1..(i - 1) : cells[j] # cells[i] }
  IN TLCEval([ i \in 1..Len(D) |-> IF i \in first THEN Cardinality({ j \in 1..Len(D) : cells[j] = cells[i] }) ELSE 0 ])
(* No point is on the boundary between cells, apart from the extreme ones. *)
OffBoundaries(D, n) == \A k \in {1, 2} : \A i \in 1..Len(D) :
  LET lo == Lows(D, k) hi == Highs(D, k) v == D[i][k] IN
  \/ v = lo \/ v = hi \/ ((v - lo) * (n - 1)) % (hi - lo) # 0

(* Means of diagrams that consist of well separated clusters: every diagram  *)
(* has one point in every cluster; the mean averages over the clusters.      *)
(* Clusters are given by the points of the first diagram.                    *)
Off(D) == SelectSeq(D, LAMBDA p : p[1] # p[2])
Far(p, q) == MaxOf({ AbsOf(p[1] - q[1]), AbsOf(p[2] - q[2]) })
Partner(p, D) == CHOOSE q \in { Off(D)[i] : i \in 1..Len(Off(D)) } : Far(p, q) <= 4
ClusterMean(p, Ds) ==
  << Total([ k \in 1..Len(Ds) |-> Partner(p, Ds[k])[1] ]), Total([ k \in 1..Len(Ds) |-> Partner(p, Ds[k])[2] ]) >>
Means(Ds) == LET D == Off(Ds[1]) IN TLCEval([ i \in 1..Len(D) |-> ClusterMean(D[i], Ds) ])
=============================================================================
