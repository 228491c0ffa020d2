--------------------------- MODULE GraphPrograms ---------------------------
(* Programs that turn graphs, matrices and functions into reports: Betti     *)
(* numbers, diagrams of degree filtrations, connectivity matrices, clique     *)
(* communities, functions on a line and spectra.                              *)
EXTENDS Programs

EdgesOf(q) == {{q[k][1], q[k][2]} : k \in 1..Len(q)}
GraphOn(V, E) == {{v} : v \in V} \cup E

(* Cycles of a graph *)
CycleRank(V, E) == Cardinality(E) - Cardinality(V) + Cardinality(Components(GraphOn(V, E)))

(* Collections of graphs: node v belongs to graph ind[v] *)
GraphOf(c, g) ==
  LET V == {v \in 1..Len(c.ind) : c.ind[v] = g} IN [v |-> V, e |-> {x \in EdgesOf(c.edges) : x \subseteq V}]
ExpandedGraph(G, d) == IF d = 0 THEN GraphOn(G.v, G.e) ELSE Flag(G.v, G.e, d)
(* The degree of a vertex is the number of simplices that contain it; these  *)
(* are edges unless the graph has been expanded.                              *)
DegreeOf(c, G, v) == Cardinality({s \in ExpandedGraph(G, c.d) : v \in s}) - 1
LargestDegree(c, G) == Max({DegreeOf(c, G, v) : v \in G.v} \cup {0})
(* Degrees in units of 1/60, divided by the largest one if required *)
Unit == 60
ScaledDegree(c, G, v) == IF c.norm THEN (DegreeOf(c, G, v) * Unit) \div LargestDegree(c, G) ELSE DegreeOf(c, G, v) * Unit
DegreeWeight(c, G, s) ==
  LET d == {ScaledDegree(c, G, v) : v \in s} IN
  CASE c.by = "sum" -> FoldSet(LAMBDA v, acc : acc + ScaledDegree(c, G, v), 0, s)
    [] c.by = "super" -> Min(d)
    [] OTHER -> Max(d)
Reflected(q) == [k \in 1..Len(q) |-> <<-q[k][1], IF Unpaired(q[k]) THEN Forever ELSE -q[k][2]>>]
CollectionDiagrams(c, g) ==
  LET G == GraphOf(c, g)
      sgn == IF c.by = "super" THEN -1 ELSE 1
      ds == DiagramsOf(InOrder({[s |-> s, w |-> sgn * DegreeWeight(c, G, s)] : s \in ExpandedGraph(G, c.d)}), TRUE)
  IN [k \in 1..Len(ds) |-> [d |-> ds[k].d, pts |-> NotOnDiagonal(IF c.by = "super" THEN Reflected(ds[k].pts) ELSE ds[k].pts)]]
GraphCount(c) == Max(SetOf(c.ind))
UnpairedValue(c) ==
  c.f * Unit * (IF c.norm THEN 1 ELSE Max({LargestDegree(c, GraphOf(c, g)) : g \in 1..GraphCount(c)}))
CollectionDimension(c) == Max({DimOf(ExpandedGraph(GraphOf(c, g), c.d)) : g \in 1..GraphCount(c)})
CollectionFile(c, g, d) ==
  LET ds == CollectionDiagrams(c, g)
      I == {k \in 1..Len(ds) : ds[k].d = d}
  IN IF I = {} THEN <<>> ELSE Capped(ds[Min(I)].pts, UnpairedValue(c))
(* Lengths of shortest paths; closeness relates their sum to the vertices *)
RECURSIVE Spheres(_, _, _)
Spheres(E, inner, k) ==       \* sum of the distances of vertices outside inner
  LET next == {v \in UNION E : v \notin inner /\ \E e \in E : v \in e /\ e \cap inner # {}} IN
  IF next = {} THEN 0 ELSE (k * Cardinality(next)) + Spheres(E, inner \cup next, k + 1)
DistanceSum(G, v) == Spheres(G.e, {v}, 1)

(* Connectivity matrices: large entries are close to each other *)
MatrixItems(m) ==
  LET n == Len(m)
      E == {e \in SUBSET (1..n) : Cardinality(e) = 2 /\ m[Min(e)][Max(e)] # 0}
      top == Max({0} \cup {m[i][j] : i, j \in 1..n})
  IN {[s |-> {v}, w |-> 0] : v \in 1..n} \cup {[s |-> e, w |-> top - m[Min(e)][Max(e)]] : e \in E}
MatrixDiagrams(m, all, inf) ==
  LET ds == DiagramsOf(InOrder(MatrixItems(m)), all) IN
  [k \in 1..Len(ds) |-> [d |-> ds[k].d, pts |-> IF inf = -1 THEN ds[k].pts ELSE Capped(ds[k].pts, inf)]]

(* Clique communities: simplices of dimension k that are connected by chains *)
(* of simplices, each one sharing a face of dimension k - 1 with the next one *)
RECURSIVE Grown(_, _, _)
Grown(T, part, k) ==
  LET more == {t \in T : t \notin part /\ \E s \in part : Cardinality(s \cap t) = k} IN
  IF more = {} THEN part ELSE Grown(T, part \cup more, k)
Communities(S, k) == LET T == SimplicesOfDim(S, k) IN {Grown(T, {s}, k) : s \in T}
(* Weights of edges in eighths after normalisation and inversion *)
CliqueWeight(c, w) ==
  LET top == Max({0} \cup {c.edges[k][3] : k \in 1..Len(c.edges)})
      v == IF c.norm /\ top # 0 THEN (8 * w) \div top ELSE 8 * w
      t == IF c.norm /\ top # 0 THEN 8 ELSE 8 * top
  IN IF c.inv THEN t - v ELSE v
CliqueComplex(c) ==
  LET I == {k \in 1..Len(c.edges) : CliqueWeight(c, c.edges[k][3]) <= c.t} IN
  Flag(SetOf(c.nodes), {{c.edges[k][1], c.edges[k][2]} : k \in I}, c.top)

(* Functions on a line; values in units of 1/27720 of their range *)
Whole == 27720
LineValues(f, norm) ==
  LET lo == Min(SetOf(f))  hi == Max(SetOf(f)) IN
  IF norm /\ lo # hi THEN [k \in 1..Len(f) |-> ((f[k] - lo) * Whole) \div (hi - lo)] ELSE f

(* Spectra: peaks and their prominence *)
SpectrumPairs(y) ==
  LET n == Len(y)
      C == InOrder({[s |-> {v}, w |-> -y[v]] : v \in 1..n} \cup
                   {[s |-> {v, v + 1}, w |-> -Least(y[v], y[v+1])] : v \in 1..n-1})
      F == [k \in 1..Len(C) |-> C[k].s]
      pr == Pairing(F)
  IN {<<CHOOSE v \in F[p[1]] : TRUE, -C[p[2]].w>> : p \in {q \in pr.pairs : Dim(F[q[1]]) = 0}} \cup
     {<<CHOOSE v \in F[i] : TRUE, 0>> : i \in {j \in 1..Len(F) : Dim(F[j]) = 0 /\ \A q \in pr.pairs : q[1] # j}}
=============================================================================
