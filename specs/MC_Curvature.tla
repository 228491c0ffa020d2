----------------------------- MODULE MC_Curvature -----------------------------
(* Weighted graphs on few vertices: distances form a (pseudo)metric that is  *)
(* finite exactly inside components; flag complexes: degree identities.      *)
EXTENDS Curvature, TLC, CSV, Json, IOUtils

CONSTANTS N, Weights

VARIABLES W, D      \* edge weights; the distances they induce
V == 0..N-1
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}

Init == /\ W \in [AllEdges -> Weights \cup {-1}]        \* -1: no edge
        /\ D = Distances(V, LAMBDA a, b : IF a # b /\ W[{a, b}] >= 0 THEN W[{a, b}] ELSE Inf)
Next == FALSE /\ UNCHANGED <<W, D>>
Spec == Init /\ [][Next]_<<W, D>>

G  == {e \in AllEdges : W[e] >= 0}
Graph == {{v} : v \in V} \cup G
Metric == \A a, b, c \in V : D[<<a, a>>] = 0 /\ D[<<a, b>>] = D[<<b, a>>]
                             /\ D[<<a, c>>] <= Plus(D[<<a, b>>], D[<<b, c>>])
Finite == \A a, b \in V : (D[<<a, b>>] < Inf) <=> (b \in ComponentOf(Graph, a))
AtMostEdge == \A e \in G : D[<<Min(e), Max(e)>>] <= W[e]
Handshake == MapThenSumSet(LAMBDA v : VertexDegree(Graph, v), V) = 2 * Cardinality(G)

(* In a graph: curvature of an edge is 4 - deg(u) - deg(v) *)
GraphCurvature == \A e \in G : Forman(Graph, e) = 4 - VertexDegree(Graph, Min(e)) - VertexDegree(Graph, Max(e))

(* Weighted curvature: unit weights; scaling all weights *)
UnitWeights == \A e \in G : LET P(k) == [s \in Graph |-> k] IN
  WeightedForman(Graph, P(0), e) = 16 * Forman(Graph, e) /\ WeightedForman(Graph, P(1), e) = 64 * Forman(Graph, e)

Export == CSVWrite("%1$s", <<ToJson(SetToSeq({<<Min(e), Max(e), W[e]>> : e \in G}))>>, IOEnv.EXPORT)
=============================================================================
