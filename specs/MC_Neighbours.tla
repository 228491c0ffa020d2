---------------------------- MODULE MC_Neighbours ----------------------------
(* All small planar point lists: metric axioms and consistency of queries.   *)
EXTENDS Neighbours, TLC, CSV, Json, IOUtils

CONSTANTS Coord, MaxN, MaxR

VARIABLES pts, R
Pt == {<<x, y>> : x, y \in Coord}
Init == pts \in UNION {[1..n -> Pt] : n \in 1..MaxN} /\ R \in 0..MaxR
Next == FALSE /\ UNCHANGED <<pts, R>>
Spec == Init /\ [][Next]_<<pts, R>>

Metrics == {"euclidean", "manhattan", "hamming"}
N == 0..Len(pts)-1
Symmetric == \A m \in Metrics, i, j \in N : D(m, pts, i, j) = D(m, pts, j, i)
Zero      == \A m \in Metrics, i, j \in N : (D(m, pts, i, j) = 0) <=> (pts[i+1] = pts[j+1])
Triangle  == \A m \in {"manhattan", "hamming"}, i, j, k \in N : D(m, pts, i, j) <= D(m, pts, i, k) + D(m, pts, k, j)
(* A radius query answers the question of a neighbour query for its size *)
RadiusIsNearest == \A m \in Metrics, i \in N :
   LET B == {j \in N : Below(m, D(m, pts, i, j), R)}
       q == SetToSeq(B)
   IN NeighbourRow(m, pts, Cardinality(B), i, q, [x \in 1..Len(q) |-> D(m, pts, i, q[x])])
SelfIncluded == \A m \in Metrics, i \in N : R > 0 => Below(m, D(m, pts, i, i), R)
SymmetricGraph == \A m \in Metrics : \A e \in RipsGraph(m, pts, R, 0) : e \subseteq N

Export == CSVWrite("%1$s", <<ToJson([pts |-> pts, R |-> R])>>, IOEnv.EXPORT)
=============================================================================
