----------------------------- MODULE Neighbours -----------------------------
(* Exact nearest-neighbour queries over integer points.                     *)
EXTENDS Rips

Others(pts) == 0..Len(pts)-1
D(metric, pts, i, j) == PointDistance(metric, pts[i+1], pts[j+1])

NoRepeats(q) == Cardinality(SetOf(q)) = Len(q)

(* One row of a radius query: precisely the points closer than R/2 *)
RadiusRow(metric, pts, R, hair, i, idx, dist) ==
  /\ NoRepeats(idx) /\ Len(dist) = Len(idx)
  /\ SetOf(idx) = {j \in Others(pts) : Closer(metric, D(metric, pts, i, j), R, hair)}
  /\ \A k \in 1..Len(idx) : dist[k] = D(metric, pts, i, idx[k])

(* One row of a k-nearest-neighbour query: k points, none of which is       *)
(* farther than a point left out; fewer only if there are not enough.        *)
NeighbourRow(metric, pts, k, i, idx, dist) ==
  /\ NoRepeats(idx) /\ Len(dist) = Len(idx)
  /\ SetOf(idx) \subseteq Others(pts)
  /\ Len(idx) = Min({k, Len(pts)})
  /\ \A a \in SetOf(idx), b \in Others(pts) \ SetOf(idx) : D(metric, pts, i, a) <= D(metric, pts, i, b)
  /\ \A m \in 1..Len(idx) : dist[m] = D(metric, pts, i, idx[m])
=============================================================================
