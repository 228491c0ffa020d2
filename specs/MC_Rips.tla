------------------------------ MODULE MC_Rips ------------------------------
(* All graphs on few vertices: the constructive expansion is the flag       *)
(* complex, a complex, and its maximum weights are monotone.                *)
EXTENDS Rips, TLC, CSV, Json, IOUtils

CONSTANTS N, MaxDim

VARIABLES G, d
V == 0..N-1
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}

Init == G \in SUBSET AllEdges /\ d \in 0..MaxDim
Next == FALSE /\ UNCHANGED <<G, d>>
Spec == Init /\ [][Next]_<<G, d>>

(* Some weights that differ in order and sign *)
EW == [e \in AllEdges |-> Min(e) * Min(e) - 2 * Max(e) + 2]

SameComplex == Flag(V, G, d) = FlagComplex(V, G, d)
FlagIsComplex == IsComplex(Flag(V, G, d))
WeightsMonotone == \A s, t \in Flag(V, G, d) :
   (s \subseteq t /\ Dim(s) >= 1) => MaxEdgeWeight(EW, s) <= MaxEdgeWeight(EW, t)
MaxFromFacets == \A s \in Flag(V, G, d) :
   Dim(s) >= 2 => MaxEdgeWeight(EW, s) = Max({MaxEdgeWeight(EW, f) : f \in Facets(s)})
SkeletonOK == {s \in Flag(V, G, MaxDim) : Dim(s) <= d} = Flag(V, G, d)

Export == CSVWrite("%1$s", <<ToJson([edges |-> SetToSeq({SetToSeq(e) : e \in G}), d |-> d])>>, IOEnv.EXPORT)
=============================================================================
