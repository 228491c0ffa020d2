-------------------------------- MODULE Spine --------------------------------
(* Elementary collapses.  A principal simplex has no cofaces; a facet of it  *)
(* is free if it has no other coface.                                        *)
EXTENDS ComplexContainer

DirectCofaces(S, t) == {s \in S : Dim(s) = Dim(t) + 1 /\ t \subseteq s}
Principal(S, s) == DirectCofaces(S, s) = {}
Collapses(S) == {<<s, t>> \in {<<s, t>> \in S \X S : t \in Facets(s)} :
                   Principal(S, s) /\ DirectCofaces(S, t) = {s}}
HasCollapse(S) == \E s \in S : \E t \in Facets(s) : Principal(S, s) /\ DirectCofaces(S, t) = {s}

(* Rank of the boundary map between the simplices of K that are not in L *)
RelativeRank(R, d) ==
  IF d <= 0 THEN 0
  ELSE LET low == SimplicesOfDim(R, d-1)
           idx == SimplexIndex(low)
           q == SetToSeq(SimplicesOfDim(R, d))
       IN Rank([k \in 1..Len(q) |-> {idx[f] : f \in Facets(q[k]) \cap low}])
RelativeBetti(K, L, d) ==
  LET R == K \ L IN Cardinality(SimplicesOfDim(R, d)) - RelativeRank(R, d) - RelativeRank(R, d+1)
(* The inclusion of L induces isomorphisms in homology *)
SameHomology(K, L) == \A d \in 0..DimOf(K) : RelativeBetti(K, L, d) = 0

(* Content D is a spine of content C *)
IsSpine(C, D) ==
  /\ Distinct(D)
  /\ ItemsOf(D) \subseteq ItemsOf(C)
  /\ Closed(D)
  /\ ~HasCollapse(SimplicesOf(D))
  /\ SameHomology(SimplicesOf(C), SimplicesOf(D))
=============================================================================
