----------------------------- MODULE UnionFind -----------------------------
(* Disjoint sets with directed merging: rep maps every element to the       *)
(* representative of its class.  Merging u into v makes the representative  *)
(* of v's class the representative of both.                                 *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

Fresh(S) == [x \in S |-> x]

MergeInto(rep, u, v) == [x \in DOMAIN rep |-> IF rep[x] = rep[u] THEN rep[v] ELSE rep[x]]

ClassOf(rep, v) == {x \in DOMAIN rep : rep[x] = rep[v]}
Roots(rep) == {x \in DOMAIN rep : rep[x] = x}
Same(rep, u, v) == rep[u] = rep[v]
=============================================================================
