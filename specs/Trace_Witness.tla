---------------------------- MODULE Trace_Witness ----------------------------
EXTENDS Witness, FunctionalTrace

(* Distances are integers, the bound may differ from one by a hair *)
Bound(in) == IF in.hair < 0 THEN in.R - 1 ELSE in.R

AcceptDowker(e) ==
  LET W == e.in.W
      N == Nodes(W)
      D == Completed(W)
      P == {p \in N \X N : D[p] <= Bound(e.in)}
      good(q, X) == LET C == Content(q) IN Distinct(C) /\ ItemsOf(C) = X /\ SortedBy(C, DataLess)
  IN /\ {<<x[1], x[2], x[3]>> : x \in SetOf(e.out.pairs)} = {<<p[1], p[2], D[p]>> : p \in P}
     /\ Len(e.out.pairs) = Cardinality(P)
     /\ good(e.out.source, DowkerSource(P, D, N, e.in.d))
     /\ good(e.out.sink, DowkerSink(P, D, N, e.in.d))
     /\ good(e.out.only, DowkerSource(P, D, N, e.in.d))

(* L lists the landmarks by their position in pts; vertices of the complex   *)
(* are positions in L.  Without a dimension the expansion has to reach the  *)
(* ambient dimension plus one and may go further.                            *)
AcceptWitness(e) ==
  LET L == e.in.L
      N == Len(e.in.pts)
      n == Len(L)
      dist(k, i) == PointDistance(e.in.metric, e.in.pts[k+1], e.in.pts[L[i+1]+1])
      E == WitnessEdges(N, n, e.in.nu, Bound(e.in), dist)
      w == [x \in E |-> WitnessWeight(N, n, e.in.nu, Bound(e.in), dist, x)]
      C == Content(e.out.K)
      least == IF e.in.d = 0 THEN Len(e.in.pts[1]) + 1 ELSE e.in.d
  IN /\ Distinct(C)
     /\ Flag(0..n-1, E, least) \subseteq SimplicesOf(C)
     /\ IF e.in.d = 0 THEN SimplicesOf(C) \subseteq Flag(0..n-1, E, n)
                      ELSE SimplicesOf(C) \subseteq Flag(0..n-1, E, least)
     /\ \A x \in ItemsOf(C) : x.w = IF Dim(x.s) = 0 THEN 0 ELSE MaxEdgeWeight(w, x.s)
     /\ SortedBy(C, DataLess)

AcceptLandmarks(e) ==
  /\ Len(e.out.maxmin) = e.in.n
  /\ SetOf(e.out.maxmin) \subseteq 0..Len(e.in.pts)-1
  /\ MaxMin(e.in.metric, e.in.pts, e.out.maxmin)
  /\ Len(e.out.random) = e.in.n /\ Cardinality(SetOf(e.out.random)) = e.in.n
  /\ SetOf(e.out.random) \subseteq 0..Len(e.in.pts)-1
  /\ e.out.refused
=============================================================================
