--------------------------- MODULE Trace_Spanning ---------------------------
EXTENDS Spanning, FunctionalTrace

SameDiagrams(ds, ex) ==
  /\ Len(ds) = Len(ex)
  /\ \A k \in 1..Len(ds) : ds[k].dim = ex[k].dim /\ BagOf(ds[k].pts) = BagOf(ex[k].pts)

(* Selected edges form a spanning tree of least weight *)
TreeOK(w, n, q) ==
  LET T == {SetOf(q[k]) : k \in 1..Len(q)} IN
  /\ \A t \in T : t \in DOMAIN w
  /\ Cardinality(T) = Len(q)
  /\ IsTree(T, 0..n-1)
  /\ WeightBag(w, T) = WeightBag(w, TreeOf(w))

(* All other edges close a cycle, and some edge ends it *)
CyclesOK(C, w, n, tree, q) ==
  LET T == {SetOf(tree[k]) : k \in 1..Len(tree)}
      creators == [k \in 1..Len(q) |-> {q[k][1], q[k][2]}]
      dgms == DiagramPoints(C)
      cycles == {k \in 1..Len(dgms) : dgms[k].dim = 1}
      expected == IF cycles = {} THEN <<>> ELSE dgms[CHOOSE k \in cycles : TRUE].pts
  IN /\ \A k \in 1..Len(q) : creators[k] \in DOMAIN w /\ {q[k][3], q[k][4]} \in DOMAIN w
     /\ Cardinality(SetOf(creators)) = Len(q)
     /\ SetOf(creators) = DOMAIN w \ T
     /\ BagOf([k \in 1..Len(q) |-> <<w[creators[k]], w[{q[k][3], q[k][4]}]>>]) = BagOf(expected)

AcceptMatrix(e) ==
  CASE e.in.k = "rips" ->
         LET n == Len(e.in.D)
             w == Weights(e.in.D, n)
         IN /\ SameDiagrams(e.out.dgms, DiagramPoints(Filtration(e.in.D, n, e.in.d)))
            /\ TreeOK(w, n, e.out.tree)
            /\ TreeOK(w, n, e.out.tree2)
            /\ CyclesOK(Filtration(e.in.D, n, 2), w, n, e.out.tree2, e.out.cycles)
            /\ e.out.same
    [] e.in.k = "bipartite" ->
         LET n == Len(e.in.D)
             m == e.in.cols
             w == Bipartite(e.in.D, n, m)
             T == SetToSeq({x \in IF e.in.reverse THEN Largest(w) ELSE TreeOf(w) : w[x] # e.in.v})
             rest == n + m - Cardinality(IF e.in.reverse THEN Largest(w) ELSE TreeOf(w))
         IN /\ e.out.dim = 0
            /\ BagOf(e.out.pts) = BagOf([k \in 1..Len(T) |-> <<e.in.v, w[T[k]]>>] \o [k \in 1..rest |-> <<e.in.v, e.in.u>>])
    [] e.in.k = "cloud" ->
         LET d == IF e.in.d = 0 THEN Len(e.in.P[1]) + 1 ELSE e.in.d
             C == {Item(s, Diameter("euclidean", e.in.P, s)) : s \in RipsComplex("euclidean", e.in.P, e.in.R, 0, d)}
         IN SameDiagrams(e.out.dgms, DiagramPoints(SetToSortSeq(C, DataLess)))
    [] e.in.k = "refused" -> e.out.refused
=============================================================================
