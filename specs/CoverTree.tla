------------------------------ MODULE CoverTree ------------------------------
(* Simplified cover trees over points of a metric space with distances      *)
(* dist[p, q], given in units of 1/Unit.  A tree maps every point to its     *)
(* level and its parent; the root is its own parent.                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

(* d/unit <= 2^l *)
Within(unit, d, l) == IF l >= 0 THEN d <= unit * Pow2(l) ELSE d * Pow2(-l) <= unit

(* The three invariants, for any assignment of parents *)
RootOf(T) == CHOOSE p \in DOMAIN T : T[p].par = p
Children(T, n) == {c \in DOMAIN T : c # n /\ T[c].par = n}
OneRoot(T) == Cardinality({p \in DOMAIN T : T[p].par = p}) = 1
Levels(T)  == \A p \in DOMAIN T : T[p].par # p => T[p].lvl = T[T[p].par].lvl - 1
Covering(T, unit, dist) ==
  \A p \in DOMAIN T : T[p].par # p => Within(unit, dist[p, T[p].par], T[p].lvl + 1)
Separating(T, unit, dist) ==
  \A p, q \in DOMAIN T : (p # q /\ T[p].par # p /\ T[q].par # q /\ T[p].par = T[q].par)
                         => ~Within(unit, dist[p, q], T[p].lvl)
ValidTree(T, unit, dist) ==
  OneRoot(T) /\ Levels(T) /\ Covering(T, unit, dist) /\ Separating(T, unit, dist)

(* Is there a valid tree with the given levels?  lv maps points to levels.   *)
(* Parents are chosen level by level; siblings must be separated.            *)
ParentsOf(lv, unit, dist, p) ==
  {q \in DOMAIN lv : lv[q] = lv[p] + 1 /\ Within(unit, dist[p, q], lv[q])}

RECURSIVE Assignable(_, _, _, _, _)
Assignable(lv, unit, dist, todo, par) ==
  IF todo = {} THEN TRUE
  ELSE LET p == CHOOSE x \in todo : TRUE IN
       \E q \in ParentsOf(lv, unit, dist, p) :
          /\ \A s \in DOMAIN par : (par[s] = q) => ~Within(unit, dist[p, s], lv[p])
          /\ Assignable(lv, unit, dist, todo \ {p},
                        [x \in DOMAIN par \cup {p} |-> IF x = p THEN q ELSE par[x]])

LevelsRealisable(lv, unit, dist) ==
  lv = [x \in {} |-> 0] \/
  LET top == Max({lv[p] : p \in DOMAIN lv})
      rts == {p \in DOMAIN lv : lv[p] = top}
  IN /\ Cardinality(rts) = 1
     /\ Assignable(lv, unit, dist, DOMAIN lv \ rts, [x \in {} |-> x])

-----------------------------------------------------------------------------
(* Insertion, as sets of possible results: any covering child may be         *)
(* followed and any leaf may be moved to the root.                           *)
Put(T, p, l, q) == [x \in DOMAIN T \cup {p} |-> IF x = p THEN [lvl |-> l, par |-> q] ELSE T[x]]

RECURSIVE Below(_, _, _, _, _)
Below(T, n, p, unit, dist) ==
  LET C == {c \in Children(T, n) : Within(unit, dist[c, p], T[c].lvl)}
  IN IF C = {} THEN {Put(T, p, T[n].lvl - 1, n)}
     ELSE UNION {Below(T, c, p, unit, dist) : c \in C}

(* A new root above the old one *)
NewRoot(T, p) ==
  LET r == RootOf(T)
  IN [x \in DOMAIN T \cup {p} |->
        IF x = p THEN [lvl |-> T[r].lvl + 1, par |-> p]
        ELSE IF x = r THEN [lvl |-> T[r].lvl, par |-> p] ELSE T[x]]

Without(T, p) == [x \in DOMAIN T \ {p} |-> T[x]]
Leaves(T) == {p \in DOMAIN T : p # RootOf(T) /\ Children(T, p) = {}}

RECURSIVE Raised(_, _, _, _)
Raised(T, p, unit, dist) ==
  LET r == RootOf(T) IN
  IF Within(unit, dist[r, p], T[r].lvl + 1) THEN {T}
  ELSE IF DOMAIN T = {r} THEN Raised([x \in {r} |-> [lvl |-> T[r].lvl + 1, par |-> r]], p, unit, dist)
  ELSE UNION {Raised(NewRoot(Without(T, x), x), p, unit, dist) : x \in Leaves(T)}

Insert(T, p, unit, dist) ==
  IF DOMAIN T = {} THEN {[x \in {p} |-> [lvl |-> 0, par |-> p]]}
  ELSE IF Within(unit, dist[RootOf(T), p], T[RootOf(T)].lvl) THEN Below(T, RootOf(T), p, unit, dist)
  ELSE {NewRoot(S, p) : S \in Raised(T, p, unit, dist)}
=============================================================================
