------------------------ MODULE Trace_ComplexPrograms ------------------------
(* Validates recorded runs of programs for triangulations, graphs with signs *)
(* and entropies.                                                             *)
EXTENDS ComplexPrograms, FunctionalTrace

Same(q, r) == BagOf(q) = BagOf(r)

TriangulationsOK(c, r) ==
  /\ Len(r.homology) = Len(c.tris) /\ Len(r.intersection) = Len(c.tris)
  /\ \A k \in 1..Len(c.tris) :
       LET S == TLCEval(Triangulation(c.tris[k]))
           b == BettiNumbers(S)
           F == TLCEval(ByDimension(Subdivided(S)))
           q == r.intersection[k]
       IN /\ r.homology[k].betti = b /\ r.homology[k].euler = EulerOf(b)
          /\ Len(q) = Cardinality(Perversities(DimOf(S)))
          /\ {q[j].p : j \in 1..Len(q)} = Perversities(DimOf(S))
          /\ \A j \in 1..Len(q) : q[j].betti = IntersectionBetti(S, F, q[j].p)

(* Norms are given in hundredths, those of standardised weights in tenths *)
NormOK(c, v, q) ==
  LET S == TotalOf(q, 2)
      u == ScaleOf(c)
      n == Len(c.edges)
      Q == Sum([k \in 1..n |-> Rescaled(c, c.edges[k][3]) * Rescaled(c, c.edges[k][3])])
  IN IF c.norm = "standardize"
     THEN Magnitude((v * v * Q) - (100 * (n - 1) * S)) <= (v + 1) * Q
     ELSE Magnitude((v * u * v * u) - (10000 * S)) <= (v + 1) * u * u
GraphsOK(c, r) ==
  /\ Len(r.out) = Len(c.graphs)
  /\ \A k \in 1..Len(c.graphs) :
       LET g == [edges |-> c.graphs[k].edges, norm |-> c.norm, by |-> c.by, rev |-> c.rev, weights |-> c.weights]
           q == GraphDiagram(g)
       IN IF c.diagrams THEN c.graphs[k].scale = ScaleOf(g) /\ Same(NotOnDiagonal(r.out[k]), NotOnDiagonal(q))
          ELSE r.out[k][1] = k - 1 /\ NormOK(g, r.out[k][2], q)

EntropiesOK(c, r) ==
  /\ Len(r.rows) = Len(c.Ds)
  /\ \A k \in 1..Len(c.Ds) :
       LET D == c.Ds[k]  x == r.rows[k] IN
       /\ Len(x) = 3
       /\ Su!CloseTo(x[1], Su!Entropy(Su!NearestSquares(D)))
       /\ Su!CloseTo(x[2], Su!Entropy(Su!GridCounts(D, 20)))
       /\ Su!CloseTo(x[3], Su!Entropy(Su!Persistences(D)))

AcceptComplexPrograms(e) ==
  LET c == e.in
      r == e.out
  IN /\ r.rc = 0
     /\ CASE c.k = "triangulations" -> TriangulationsOK(c, r)
          [] c.k = "graphs"         -> GraphsOK(c, r)
          [] c.k = "entropies"      -> EntropiesOK(c, r)
=============================================================================
