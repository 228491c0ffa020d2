------------------------------ MODULE Spanning ------------------------------
(* Filtrations of complete graphs, and of complete bipartite ones, given by   *)
(* matrices of weights: edges are taken in the order of their weights; an     *)
(* edge either joins two components or closes a cycle.                        *)
EXTENDS Rips, Persistence

Forever == 2000000000

(* Complete graph on 0..n-1; D is a symmetric matrix *)
EdgesOf(n) == {{i, j} : i \in 0..n-1, j \in 0..n-1} \ {{i} : i \in 0..n-1}
WeightOf(D, e) == D[Min(e) + 1][Max(e) + 1]
Weights(D, n) == [e \in EdgesOf(n) |-> WeightOf(D, e)]
Content2(D, n, d) ==
  LET w == Weights(D, n) IN
  {Item(s, IF Cardinality(s) = 1 THEN 0 ELSE MaxEdgeWeight(w, s)) : s \in Flag(0..n-1, EdgesOf(n), d)}
Filtration(D, n, d) == SetToSortSeq(Content2(D, n, IF d = 0 THEN 1 ELSE d), DataLess)

(* Kruskal's machine: take the edges in some order that respects weights *)
Joined(T, e) == LET u == Min(e)  v == Max(e) IN v \in Reach(T, {u})
RECURSIVE Kruskal(_, _)
Kruskal(q, T) == IF q = <<>> THEN T ELSE Kruskal(Tail(q), IF Joined(T, Head(q)) THEN T ELSE T \cup {Head(q)})
TreeOf(w) == Kruskal(SetToSortSeq(DOMAIN w, LAMBDA a, b : w[a] < w[b]), {})

IsForest(T) == \A e \in T : ~Joined(T \ {e}, e)
Spans(T, V) == V = {} \/ \A v \in V : v \in Reach(T, {CHOOSE u \in V : \A x \in V : u <= x})
IsTree(T, V) == IsForest(T) /\ Spans(T, V)
WeightBag(w, T) == BagOfSet(T, LAMBDA e : w[e])

(* Points of the diagrams *)
DiagramPoints(C) ==
  LET F == [k \in 1..Len(C) |-> C[k].s]
      W == [k \in 1..Len(C) |-> C[k].w]
      pr == Pairing(F)
      pts(d) == LET a == SetToSeq({p \in pr.pairs : Dim(F[p[1]]) = d})
                    b == SetToSeq({i \in ReportedCreators(F, pr, FALSE) : Dim(F[i]) = d})
                IN [k \in 1..Len(a) |-> <<W[a[k][1]], W[a[k][2]]>>] \o [k \in 1..Len(b) |-> <<W[b[k]], Forever>>]
      ds == SetToSortSeq(DiagramDimensions(F, pr, FALSE), <)
  IN [k \in 1..Len(ds) |-> [dim |-> ds[k], pts |-> pts(ds[k])]]

(* Complete bipartite graph between rows 0..n-1 and columns n..n+m-1 *)
Bipartite(D, n, m) == [e \in {{i, n + j} : i \in 0..n-1, j \in 0..m-1} |-> D[Min(e) + 1][Max(e) - n + 1]]
Largest(w) == TreeOf([e \in DOMAIN w |-> -w[e]])
=============================================================================
