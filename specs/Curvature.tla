------------------------------ MODULE Curvature ------------------------------
(* Degrees, combinatorial curvature and shortest paths of a complex S.      *)
EXTENDS ComplexContainer, Paths

VertexDegree(S, v) == Cardinality({s \in S : Dim(s) > 0 /\ v \in s})
TopDegree(S, s)    == Cardinality({t \in S : Dim(t) = DimOf(S) /\ s \subseteq t})

Cofaces(S, s) == {t \in S : Dim(t) = Dim(s) + 1 /\ s \subseteq t}
(* Neighbours share a face or a coface, but not both *)
ParallelNeighbour(S, s, t) ==
  /\ s # t /\ Dim(s) = Dim(t)
  /\ (Facets(s) \cap Facets(t) # {}) # (Cofaces(S, s) \cap Cofaces(S, t) # {})
Forman(S, s) ==
  Cardinality(Cofaces(S, s)) + Cardinality(Facets(s))
  - Cardinality({t \in S : ParallelNeighbour(S, s, t)})

(* Weighted version, times sixteen.  The weight of s is 4^P[s] with P[s] in  *)
(* 0..2.  The contribution of a neighbour is that of the common cofaces less *)
(* that of the common faces; Decided if all contributions have the same sign *)
(* so that it does not matter when their absolute value is taken.            *)
PowerOfTwo(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16 [] n = 5 -> 32
                   [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256
SumOver(T, f(_)) == MapThenSumSet(f, T)
Contribution(S, P, s, t) ==
  SumOver(Cofaces(S, s) \cap Cofaces(S, t), LAMBDA c : PowerOfTwo((4 + P[s] + P[t]) - (2 * P[c])))
  - SumOver(Facets(s) \cap Facets(t), LAMBDA f : PowerOfTwo((4 + (2 * P[f])) - (P[s] + P[t])))
Neighbours(S, s) == {t \in S : t # s /\ Dim(t) = Dim(s)}
WeightedDecided(S, P, s) ==
  \/ \A t \in Neighbours(S, s) : Contribution(S, P, s, t) >= 0
  \/ \A t \in Neighbours(S, s) : Contribution(S, P, s, t) <= 0
WeightedForman(S, P, s) ==
  LET x == SumOver(Neighbours(S, s), LAMBDA t : Contribution(S, P, s, t)) IN
  PowerOfTwo(2 * P[s]) *
    ((SumOver(Cofaces(S, s), LAMBDA c : PowerOfTwo((4 + (2 * P[s])) - (2 * P[c])))
      + SumOver(Facets(s), LAMBDA f : PowerOfTwo((4 + (2 * P[f])) - (2 * P[s]))))
     - (IF x < 0 THEN -x ELSE x))

(* Path lengths; edges without a weight count as weight d *)
GraphDistances(C, d) ==
  LET V == {x.s : x \in {y \in ItemsOf(C) : Dim(y.s) = 0}}
      N == UNION V
      w(a, b) == IF Has(C, {a, b}) THEN LET x == Lookup(C, {a, b}).w IN IF x = 0 THEN d ELSE x ELSE Inf
  IN Distances(N, w)
=============================================================================
