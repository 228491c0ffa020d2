------------------------------ MODULE MC_Cliques ------------------------------
(* All graphs on few vertices. *)
EXTENDS Cliques, TLC, CSV, Json, IOUtils

CONSTANT N

VARIABLE G
V == 0..N-1
AllEdges == {e \in SUBSET V : Cardinality(e) = 2}

Init == G \in SUBSET AllEdges
Next == FALSE /\ UNCHANGED G
Spec == Init /\ [][Next]_G

Same == CliquesRec(V, G) = MaximalCliques(V, G)
Covered == \A v \in V : \E C \in MaximalCliques(V, G) : v \in C
EdgesCovered == \A e \in G : \E C \in MaximalCliques(V, G) : e \subseteq C
Antichain == \A C, D \in MaximalCliques(V, G) : C \subseteq D => C = D

Flags == {s \in SUBSET V : s # {} /\ IsClique(G, s)}
(* Every common face of a simplex with a closed complex is found *)
CommonOK == \A s \in SUBSET V :
   (s # {} /\ s \notin Flags) => CommonFaces(Flags, s) = Flags \cap SUBSET s
LargestOK == \A s \in SUBSET V \ {{}} : \A f \in LargestCommon(Flags, s) :
   f # {} => f \in CommonFaces(Flags, s)

Export == CSVWrite("%1$s", <<ToJson(SetToSeq({SetToSeq(e) : e \in G}))>>, IOEnv.EXPORT)
=============================================================================
