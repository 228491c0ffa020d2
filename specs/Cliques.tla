------------------------------- MODULE Cliques -------------------------------
(* Maximal cliques of graphs, clique graphs of complexes, intersections.    *)
EXTENDS ComplexContainer

IsClique(E, C)  == \A u, v \in C : u # v => {u, v} \in E
Neighbourhood(E, v) == UNION {e \ {v} : e \in {x \in E : v \in x}}

(* By definition *)
IsMaximalClique(V, E, C) ==
  C # {} /\ IsClique(E, C) /\ ~\E v \in V \ C : C \subseteq Neighbourhood(E, v)
MaximalCliques(V, E) == {C \in SUBSET V : IsMaximalClique(V, E, C)}

(* By adding one vertex at a time *)
RECURSIVE CliquesRec(_, _)
CliquesRec(V, E) ==
  IF V = {} THEN {{}}
  ELSE LET v == CHOOSE x \in V : TRUE
           N == Neighbourhood(E, v) \cap V
       IN {C \cup {v} : C \in CliquesRec(N, E)}
          \cup {C \in CliquesRec(V \ {v}, E) : ~(C \subseteq N)}

-----------------------------------------------------------------------------
(* The clique graph: nodes are positions (from zero) of k-simplices in the   *)
(* order of the complex.                                                     *)
CliqueNodes(C, k) == {j \in 1..Len(C) : Dim(C[j].s) = k}
Share(s, t, k) == Cardinality(s \cap t) = k
CliqueGraph(C, k, weight(_, _)) ==
  {Item({j - 1}, C[j].w) : j \in CliqueNodes(C, k)} \cup
  {Item({p[1] - 1, p[2] - 1}, weight(C[p[1]].w, C[p[2]].w)) :
     p \in {q \in CliqueNodes(C, k) \X CliqueNodes(C, k) : q[1] < q[2] /\ Share(C[q[1]].s, C[q[2]].s, k)}}

-----------------------------------------------------------------------------
(* Intersections of a simplex with the members of a complex *)
CommonFaces(S, s) == IF s \in S THEN {s} ELSE {s \cap t : t \in {x \in S : Dim(x) <= Dim(s)}} \ {{}}
CommonFacesOfDim(S, s) == {s \cap t : t \in SimplicesOfDim(S, Dim(s))} \ {{}}
LargestCommon(S, s) ==
  LET F == Faces(s) \cap S
  IN IF F = {} THEN {{}} ELSE {f \in F : Dim(f) = Max({Dim(g) : g \in F})}
=============================================================================
