--------------------------- MODULE ComplexPrograms ---------------------------
(* Programs for triangulations, weighted graphs with signs, and the entropy  *)
(* of diagrams.                                                               *)
EXTENDS Programs, IntersectionHomology, Constructions

Su == INSTANCE Summaries

-----------------------------------------------------------------------------
(* A triangulation is given by its facets.  Its strata are its skeleta, while *)
(* chains live on its barycentric subdivision, whose further vertices have    *)
(* names of their own.                                                        *)
Triangulation(q) == UNION {Faces(SetOf(q[k])) : k \in 1..Len(q)}
EulerOf(b) == Sum([k \in 1..Len(b) |-> IF k % 2 = 1 THEN b[k] ELSE -b[k]])

Subdivided(S) ==
  LET q == SetToSeq({s \in S : Dim(s) > 0})
      base == 1000
      name == [s \in S |-> IF Dim(s) = 0 THEN Min(s) ELSE base + (CHOOSE k \in 1..Len(q) : q[k] = s)]
  IN {{name[s] : s \in c} : c \in Subdivision(S)}
Strata(S) == [k \in 1..DimOf(S) + 1 |-> {s \in S : Dim(s) <= k - 1}]
Perversities(d) == {p \in [1..d -> -1..d-1] : \A k \in 1..d : p[k] <= k - 1}
IntersectionBetti(S, F, p) ==
  LET d == DimOf(S)
      at(k) == AtDim(p, 1, k)
      X == Strata(S)
      st == RestrictedPairing(F, {s \in SetOf(F) : Allowable(X, d, 1, at, s)})
  IN [k \in 1..d + 1 |-> Cardinality({c \in st.creators : Dim(st.order[c]) = k - 1})]
ByDimension(S) == SetToSortSeq(S, LAMBDA s, t : Dim(s) < Dim(t) \/ (Dim(s) = Dim(t) /\ s # t /\ Max(SymDiff(s, t)) \in t))

-----------------------------------------------------------------------------
(* Weighted graphs: c.edges are triples of vertices and weight.  Weights are  *)
(* multiplied with ScaleOf(c) to keep normalised ones integral.               *)
WeightsOf(c) == {c.edges[k][3] : k \in 1..Len(c.edges)}
Lo(c) == Min(WeightsOf(c))
Hi(c) == Max(WeightsOf(c))
AllWeights(c) == Sum([k \in 1..Len(c.edges) |-> c.edges[k][3]])
Rescaled(c, w) ==
  CASE c.norm = "minmax" -> 2 * (w - Lo(c)) - (Hi(c) - Lo(c))
    [] c.norm = "standardize" -> Len(c.edges) * w - AllWeights(c)
    [] OTHER -> w
ScaleOf(c) ==
  CASE c.norm = "minmax" -> Hi(c) - Lo(c)
    [] c.norm = "abs" -> Most(Magnitude(Lo(c)), Magnitude(Hi(c)))
    [] c.norm = "diagram" -> IF Hi(c) = Lo(c) THEN 1 ELSE Hi(c) - Lo(c)
    [] OTHER -> 1
(* The value by which an edge is filtered *)
Relevance(c, w) == IF c.by = "absolute" THEN Magnitude(Rescaled(c, w)) ELSE Rescaled(c, w)
Direct(c, x) == IF c.rev THEN -x ELSE x
GraphItems(c) ==
  LET E == 1..Len(c.edges)
      V == UNION {{c.edges[k][1], c.edges[k][2]} : k \in E}
      r == [k \in E |-> Direct(c, Relevance(c, c.edges[k][3]))]
      at(v) == IF c.weights = "global" THEN E ELSE {k \in E : v \in {c.edges[k][1], c.edges[k][2]}}
  IN {[s |-> {v}, w |-> Min({r[k] : k \in at(v)})] : v \in V} \cup
     {[s |-> {c.edges[k][1], c.edges[k][2]}, w |-> r[k]] : k \in E}
LeastRelevance(c) == Min({Magnitude(Rescaled(c, c.edges[k][3])) : k \in 1..Len(c.edges)})
(* Components of the graph; the one that persists ends at the least absolute  *)
(* weight.                                                                    *)
GraphDiagram(c) ==
  LET q == DiagramsOf(InOrder(GraphItems(c)), FALSE)[1].pts
      p == NotOnDiagonal(q)
      off == IF c.norm = "diagram" /\ Hi(c) # Lo(c) THEN Lo(c) ELSE 0
  IN [k \in 1..Len(p) |-> <<Direct(c, p[k][1]) - off, (IF Unpaired(p[k]) THEN LeastRelevance(c) ELSE Direct(c, p[k][2])) - off>>]
=============================================================================
