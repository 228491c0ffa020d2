--------------------------- MODULE Trace_Geometry ---------------------------
EXTENDS Geometry, FunctionalTrace

AcceptCech(e) == IsCech(e.in.pts, e.in.R, e.in.hair, Content(e.out.K))

AcceptBeta(e) ==
  LET pts == e.in.pts
      n   == Len(pts)
      C   == Content(e.out.K)
      S   == SimplicesOf(C)
  IN /\ Distinct(C)
     /\ \A s \in S : Cardinality(s) <= 2 /\ s \subseteq 0..n-1
     /\ \A i \in 0..n-1 : {i} \in S /\ Lookup(C, {i}).w = 0
     /\ \A i, j \in 0..n-1 : i < j =>
          /\ Blocked(pts, e.in.b, e.in.hair, i, j) => {i, j} \notin S
          /\ Clear(pts, e.in.b, e.in.hair, i, j) => {i, j} \in S
          /\ {i, j} \in S => Lookup(C, {i, j}).w = Sq(pts[i+1], pts[j+1])
=============================================================================
