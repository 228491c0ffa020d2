-------------------------------- MODULE Paths --------------------------------
(* Shortest paths in weighted directed graphs with non-negative weights.    *)
(* A matrix is a function of pairs; Inf marks missing connections.          *)
EXTENDS Complexes, TLC

Inf == 1000000000
Plus(a, b) == IF a >= Inf \/ b >= Inf THEN Inf ELSE a + b

(* One round of relaxation over all intermediate nodes *)
Relax(N, D) == [p \in N \X N |-> Min({D[p]} \cup {Plus(D[<<p[1], m>>], D[<<m, p[2]>>]) : m \in N})]

RECURSIVE Completion(_, _)
Completion(N, D) == LET E == TLCEval(Relax(N, D)) IN IF E = D THEN D ELSE Completion(N, E)

(* w(i, j) yields the weight of an edge or Inf *)
Distances(N, w(_, _)) ==
  Completion(N, TLCEval([p \in N \X N |-> IF p[1] = p[2] THEN 0 ELSE w(p[1], p[2])]))
=============================================================================
