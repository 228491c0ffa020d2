------------------------- MODULE MC_ComplexPrograms -------------------------
(* Graphs with signed weights, built edge by edge, and subcomplexes of a      *)
(* simplex, built facet by facet.                                             *)
EXTENDS ComplexPrograms, Json, CSV, IOUtils, TLC

CONSTANTS Size, Weights, Shift, MaxEdges, MaxFacets

Nodes == 1..Size
Pairs == {e \in SUBSET Nodes : Cardinality(e) = 2}
Cells0 == {e \in SUBSET Nodes : Cardinality(e) \in 2..3}

VARIABLES w, facets

Later(e, f) == Cardinality(f) < Cardinality(e) \/ (Cardinality(e) = Cardinality(f) /\ e # f /\ Max(SymDiff(e, f)) \in e)
Start == w = <<>> /\ facets = <<>>
AddEdge == facets = <<>> /\ Len(w) < MaxEdges /\ \E e \in Pairs, x \in Weights :
  (IF w = <<>> THEN TRUE ELSE Later(e, {w[Len(w)][1], w[Len(w)][2]})) /\ w' = Append(w, <<Min(e), Max(e), x - Shift>>) /\ UNCHANGED facets
AddFacet == w = <<>> /\ Len(facets) < MaxFacets /\ \E f \in Cells0 :
  (IF facets = <<>> THEN TRUE ELSE Later(f, SetOf(facets[Len(facets)]))) /\ facets' = Append(facets, SetToSortSeq(f, <)) /\ UNCHANGED w
Next == AddEdge \/ AddFacet
Spec == Start /\ [][Next]_<<w, facets>>

Graph(q, by, rev, weights) == [edges |-> q, norm |-> "", by |-> by, rev |-> rev, weights |-> weights]
Negated == [k \in 1..Len(w) |-> <<w[k][1], w[k][2], -w[k][3]>>]
Unsigned == [k \in 1..Len(w) |-> <<w[k][1], w[k][2], Magnitude(w[k][3])>>]

(* Absolute filtrations ignore signs *)
IgnoresSigns == w # <<>> => \A rev \in BOOLEAN, s \in {"global", "local"} :
  LET a == GraphDiagram(Graph(w, "absolute", rev, s)) IN
  /\ BagOf(a) = BagOf(GraphDiagram(Graph(Negated, "absolute", rev, s)))
  /\ BagOf(a) = BagOf(GraphDiagram(Graph(Unsigned, "standard", rev, s)))
(* Reversing is negating, apart from the value of the last component *)
Reversal == w # <<>> => \A s \in {"global", "local"} :
  LET a == GraphItems(Graph(w, "standard", TRUE, s))
      b == GraphItems(Graph(Negated, "standard", FALSE, s))
  IN a = b
(* With local weights every vertex but one per component is merged or is on   *)
(* the diagonal; with global ones all points are born at the same value.      *)
Births == w # <<>> => \A rev \in BOOLEAN :
  LET c == Graph(w, "standard", rev, "global")
      q == GraphDiagram(c)
      v == Cardinality(UNION {{w[k][1], w[k][2]} : k \in 1..Len(w)})
  IN /\ Len(q) <= v
     /\ \A k \in 1..Len(q) : q[k][1] = IF rev THEN Hi(c) ELSE Lo(c)
Ordered == w # <<>> => \A by \in {"standard", "absolute"}, rev \in BOOLEAN, s \in {"global", "local"} :
  \A x \in GraphItems(Graph(w, by, rev, s)), y \in GraphItems(Graph(w, by, rev, s)) : x.s \subseteq y.s => x.w <= y.w

(* Triangulations: subdivision keeps homology, and Euler characteristics      *)
(* count simplices.                                                           *)
Counted == facets # <<>> =>
  LET S == Triangulation(facets)  b == BettiNumbers(S) IN
  /\ EulerOf(b) = Sum([k \in 1..DimOf(S)+1 |-> IF k % 2 = 1 THEN Cardinality(SimplicesOfDim(S, k-1)) ELSE -Cardinality(SimplicesOfDim(S, k-1))])
  /\ BettiNumbers(Subdivided(S)) = b
  /\ Cardinality(Perversities(DimOf(S))) = IF DimOf(S) = 1 THEN 2 ELSE 6
(* If all simplices are allowable, homology is the ordinary one.              *)
Unrestricted == facets # <<>> =>
  LET S == Triangulation(facets)
      F == ByDimension(Subdivided(S))
      st == RestrictedPairing(F, SetOf(F))
  IN [k \in 1..DimOf(S)+1 |-> Cardinality({c \in st.creators : Dim(st.order[c]) = k - 1})] = BettiNumbers(S)

Export == CSVWrite("%1$s", <<ToJson([w |-> w, facets |-> facets])>>, IOEnv.EXPORT)
=============================================================================
