------------------------------ MODULE MC_Simplex ------------------------------
(* The order and the boundary of simplices, for all vertex lists up to a    *)
(* length, and the export of all pairs of lists.                            *)
EXTENDS ComplexContainer, TLC, CSV, Json, IOUtils

CONSTANTS V, MaxLen

VARIABLES list, other

Lists == UNION {[1..n -> V] : n \in 0..MaxLen}
Init == list \in Lists /\ other \in SUBSET V
Next == FALSE /\ UNCHANGED <<list, other>>
Spec == Init /\ [][Next]_<<list, other>>

s == SetOf(list)
Total    == other # s => LexLess(s, other) # LexLess(other, s)
Strict   == ~LexLess(s, s)
FaceLess == \A f \in Faces(s) : f # s => LexLess(f, s)
Transitive == \A u \in SUBSET V : (LexLess(s, other) /\ LexLess(other, u)) => LexLess(s, u)
BoundaryBoundary == Dim(s) >= 2 => Boundary(Facets(s)) = {}
FacetCount == Dim(s) >= 1 => Cardinality(Facets(s)) = Cardinality(s)

Export == CSVWrite("%1$s", <<ToJson(<<list, SetToSeq(other)>>)>>, IOEnv.EXPORT)
=============================================================================
