---------------------------- MODULE Enumerations ----------------------------
(* Enumerating the selections of r out of n elements.  Kinds of selections: *)
(* combinations (order is irrelevant), permutations, circular permutations  *)
(* (equal up to rotation), reversible ones (equal up to reversal), and both. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Kinds == {"combination", "permutation", "circular", "reversible", "revcircular"}

RECURSIVE Falling(_, _)
Falling(n, r) == IF r = 0 THEN 1 ELSE n * Falling(n - 1, r - 1)
Factorial(r) == Falling(r, r)

(* Number of selections of r out of n elements *)
Expected(kind, n, r) ==
  CASE kind = "combination" -> Falling(n, r) \div Factorial(r)
    [] kind = "permutation" -> Falling(n, r)
    [] kind = "circular"    -> IF r = 0 THEN 1 ELSE Falling(n, r) \div r
    [] kind = "reversible"  -> IF r <= 1 THEN Falling(n, r) ELSE Falling(n, r) \div 2
    [] kind = "revcircular" -> IF r = 0 THEN 1 ELSE IF r <= 2 THEN Falling(n, r) \div r ELSE Falling(n, r) \div (2 * r)

Items(s) == { s[i] : i \in 1..Len(s) }
Injective(s) == Cardinality(Items(s)) = Len(s)
Reverse(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
(* Rotation that starts with the smallest element *)
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
FromLeast(s) ==
  IF s = << >> THEN s
  ELSE LET k == CHOOSE i \in 1..Len(s) : s[i] = Least(Items(s)) IN [ i \in 1..Len(s) |-> s[((i + k - 2) % Len(s)) + 1] ]

(* The same for equivalent selections, different for others *)
Representative(kind, s) ==
  CASE kind = "combination" -> Items(s)
    [] kind = "permutation" -> s
    [] kind = "circular"    -> FromLeast(s)
    [] kind = "reversible"  -> IF Len(s) <= 1 \/ s[1] < s[Len(s)] THEN s ELSE Reverse(s)
    [] kind = "revcircular" -> LET t == FromLeast(s) IN
                               IF Len(s) <= 2 \/ t[2] < t[Len(t)] THEN t ELSE FromLeast(Reverse(t))

(* visits: the selections in the order of the calls; stopped: the function  *)
(* asked to stop at the last one (0 if it never does); after: the range.    *)
Enumerated(kind, elements, r, visits, stop, after) ==
  LET n == Len(elements)
      total == Expected(kind, n, r)
      R == { Representative(kind, visits[i]) : i \in 1..Len(visits) }
  IN /\ Len(visits) = IF stop > 0 /\ stop < total THEN stop ELSE total
     /\ \A i \in 1..Len(visits) : /\ Len(visits[i]) = r /\ Injective(visits[i])
                                  /\ Items(visits[i]) \subseteq Items(elements)
     /\ Cardinality(R) = Len(visits)
     /\ IF stop > 0 /\ stop <= total
        THEN Len(after) = n /\ Items(after) = Items(elements)
        ELSE after = elements

(* Counting in a type whose greatest value is top: -1 stands for an error. *)
Counted(kind, d1, d2, top, c) ==
  LET e == Expected(kind, d1 + d2, d1) IN c = IF e > top THEN -1 ELSE e
=============================================================================
