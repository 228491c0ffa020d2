------------------------------ MODULE Containers ------------------------------
(* Pairings are sequences of pairs of indices, -1 denotes a missing           *)
(* destroyer.  Sparse matrices are sequences of sets of rows, along with an   *)
(* optional map of their indices.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(s) == { s[i] : i \in 1..Len(s) }
Least(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : m <= x
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN << >> ELSE << Least(S) >> \o Ascending(S \ {Least(S)})

-----------------------------------------------------------------------------
(* Positions count from 0; -1 if there is no such pair *)
FindPair(P, c, d) == Least({ i \in 1..Len(P) : P[i] = << c, d >> }) - 1
FindCreator(P, c) == Least({ i \in 1..Len(P) : P[i][1] = c }) - 1
Without(P, a, b) == SubSeq(P, 1, a) \o SubSeq(P, b + 1, Len(P))
(* Unpaired creators come last. *)
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] # -1 /\ (q[2] = -1 \/ p[2] < q[2]))
RECURSIVE SortedPairs(_)
InsertPair(s, p) == LET n == Cardinality({ i \in 1..Len(s) : ~Before(p, s[i]) }) IN SubSeq(s, 1, n) \o << p >> \o SubSeq(s, n + 1, Len(s))
SortedPairs(s) == IF s = << >> THEN << >> ELSE LET r == TLCEval(SortedPairs(SubSeq(s, 1, Len(s) - 1))) IN InsertPair(r, s[Len(s)])

-----------------------------------------------------------------------------
EmptyMatrix(n) == [ columns |-> [ i \in 1..n |-> {} ], map |-> << >>, known |-> TRUE ]
SetEntry(M, r, c) == [ M EXCEPT !.columns[c + 1] = @ \union {r} ]
HasColumn(M, c) == c \in 0..(Len(M.columns) - 1)

-----------------------------------------------------------------------------
(* Diagrams: bags of pairs of values, missing ones are infinite. *)
Points(P, v) == [ i \in 1..Len(P) |-> IF P[i][2] = -1 THEN << v[P[i][1] + 1], 2000000000 >> ELSE << v[P[i][1] + 1], v[P[i][2] + 1] >> ]
(* One-dimensional functions: values along a path; sublevel components are    *)
(* merged at local maxima, the one with the larger minimum dies.              *)
Runs(f, t) == { r \in (1..Len(f)) \X (1..Len(f)) : r[1] <= r[2] /\ (\A i \in r[1]..r[2] : f[i] <= t)
                 /\ (r[1] = 1 \/ f[r[1] - 1] > t) /\ (r[2] = Len(f) \/ f[r[2] + 1] > t) }
RECURSIVE MinOver(_, _, _)
MinOver(f, a, b) == IF a = b THEN f[a] ELSE LET m == MinOver(f, a + 1, b) IN IF f[a] < m THEN f[a] ELSE m
Components(f, s, t) ==  (* components at level s that are still separate at t *)
  LET R == Runs(f, t) IN Cardinality({ r \in R : MinOver(f, r[1], r[2]) <= s })
(* Number of pairs (b, d) by inclusion-exclusion over the values of f, with   *)
(* levels just before b, d                                                    *)
Multiplicity(f, b, d) ==
  Components(f, b, d - 1) - Components(f, b - 1, d - 1) - Components(f, b, d) + Components(f, b - 1, d)
=============================================================================
