---------------------------- MODULE Persistence ----------------------------
(* Persistent homology over GF(2) of a filtration.                          *)
(*                                                                          *)
(* A filtration is a sequence F of distinct simplices in which every        *)
(* simplex comes after its facets.  Adding simplex number j either creates  *)
(* a homology class or destroys the class created by some earlier simplex i; *)
(* (i, j) is then a pair.  The machine below adds one simplex at a time.    *)
EXTENDS Complexes

IsFiltration(F) ==
  /\ \A i, j \in 1..Len(F) : F[i] = F[j] => i = j
  /\ \A j \in 1..Len(F) : F[j] # {} /\ Facets(F[j]) \subseteq {F[i] : i \in 1..j-1}

Index(F) == [s \in SetOf(F) |-> CHOOSE k \in 1..Len(F) : F[k] = s]

(* Boundary matrix: column j is the set of indices of the facets of F[j] *)
BoundaryColumns(F) ==
  LET idx == Index(F) IN [j \in 1..Len(F) |-> {idx[f] : f \in Facets(F[j])}]

(* One step of the machine: state [basis, creators, pairs]; c is the column *)
(* of simplex j.                                                            *)
AddColumn(st, j, c) ==
  LET r == ReduceColumn(c, st.basis) IN
  IF r = {}
  THEN [st EXCEPT !.creators = @ \cup {j}]
  ELSE LET p == Max(r) IN
       [basis    |-> Extend(st.basis, p, r),
        creators |-> st.creators \ {p},
        pairs    |-> st.pairs \cup {<<p, j>>}]

NoColumns == [basis |-> EmptyFun, creators |-> {}, pairs |-> {}]

RECURSIVE RunColumns(_, _, _)
RunColumns(cols, j, st) ==
  IF j > Len(cols) THEN st ELSE RunColumns(cols, j+1, AddColumn(st, j, cols[j]))

(* Pairing of a matrix given by columns: [pairs, creators] *)
MatrixPairing(cols) == RunColumns(cols, 1, NoColumns)
Pairing(F) == MatrixPairing(BoundaryColumns(F))

(* Anti-transpose: columns and rows in reverse order *)
Dualize(cols) ==
  LET n == Len(cols) IN
  [j \in 1..n |-> {n + 1 - i : i \in {i \in 1..n : (n + 1 - j) \in cols[i]}}]

(* Diagram points in dimension d.  W is the sequence of weights.  Points    *)
(* are reported as sequences with multiplicity, so they are compared as     *)
(* bags: functions from points to positive counts.                           *)
BagOf(q) == [x \in SetOf(q) |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
BagOfSet(S, Op(_)) ==
  LET V == {Op(x) : x \in S} IN [v \in V |-> Cardinality({x \in S : Op(x) = v})]

FinitePoints(F, W, pr, d) ==
  BagOfSet({p \in pr.pairs : Dim(F[p[1]]) = d}, LAMBDA p : <<W[p[1]], W[p[2]]>>)

(* Essential classes; those of the top dimension only if asked for *)
ReportedCreators(F, pr, all) ==
  {i \in pr.creators : all \/ Dim(F[i]) # DimOf(SetOf(F))}

InfinitePoints(F, W, pr, all, d) ==
  BagOfSet({i \in ReportedCreators(F, pr, all) : Dim(F[i]) = d}, LAMBDA i : W[i])

DiagramDimensions(F, pr, all) ==
  {Dim(F[p[1]]) : p \in pr.pairs} \cup {Dim(F[i]) : i \in ReportedCreators(F, pr, all)}
=============================================================================
