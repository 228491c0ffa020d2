------------------------ MODULE IntersectionHomology ------------------------
(* Persistent intersection homology: the persistence of the chains that      *)
(* consist of proper simplices and have a boundary of proper simplices.      *)
EXTENDS Persistence, ComplexContainer

(* Stratification X (sequence of sets of simplices, X[k+1] is the k-th       *)
(* stratum), complex of dimension d, perversity values p(k).                 *)
IntersectionDim(X, s) ==
  LET I == Faces(s) \cap X IN IF I = {} THEN -1000 ELSE Max({Dim(t) : t \in I})
Allowable(X, d, first, p(_), s) ==
  \A k \in first..d : p(k) < k => IntersectionDim(X[d - k + 1], s) <= Dim(s) - k + p(k)

(* Values are forced to satisfy the conditions of a perversity *)
Clamped(v) == [k \in 1..Len(v) |-> IF v[k] < -1 THEN -1 ELSE IF v[k] > k - 1 THEN k - 1 ELSE v[k]]
RECURSIVE Stepwise(_, _)
Stepwise(v, k) ==
  IF k > Len(v) THEN v
  ELSE IF v[k] = v[k-1] \/ v[k] = v[k-1] + 1 THEN Stepwise(v, k+1)
  ELSE Stepwise([v EXCEPT ![k] = v[k-1] + 1], k+1)
AtDim(v, shift, k) == IF k - shift < Len(v) THEN v[k - shift + 1] ELSE 0

(* Proper simplices first, both parts in their original order *)
Partitioned(F, proper) ==
  SelectSeq(F, LAMBDA s : s \in proper) \o SelectSeq(F, LAMBDA s : s \notin proper)

(* Reduction of the columns of the proper simplices.  A column whose lowest  *)
(* entry is improper has no allowable boundary and plays no role.            *)
RestrictedPairing(F, proper) ==
  LET L == Partitioned(F, proper)
      n == Cardinality(proper)
      idx == Index(L)
      cols == [j \in 1..n |-> {idx[f] : f \in Facets(L[j])}]
      st == MatrixPairing(cols)
  IN [pairs |-> {q \in st.pairs : q[1] <= n}, creators |-> {c \in st.creators : c <= n}, order |-> L]
=============================================================================
