--------------------------- MODULE BoundaryMatrix ---------------------------
(* A boundary matrix: columns are finite sets of row indices with addition  *)
(* modulo two.  Every column has a dimension, which is set together with    *)
(* the column (number of entries minus one, zero for an empty column) and   *)
(* is otherwise only changed explicitly.  Indices are zero-based.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt

EmptyMatrix == [cols |-> <<>>, dims |-> <<>>, dual |-> FALSE]

NumColumns(M) == Len(M.cols)
ColumnOf(M, j)   == M.cols[j + 1]
DimensionOf(M, j) == M.dims[j + 1]
Dimension(M) == IF M.dims = <<>> THEN 0 ELSE Max({M.dims[k] : k \in 1..Len(M.dims)})

(* Lowest entry; -1 if the column is empty *)
Low(M, j) == IF ColumnOf(M, j) = {} THEN -1 ELSE Max(ColumnOf(M, j))

SetNumColumns(M, n) ==
  [M EXCEPT !.cols = [k \in 1..n |-> IF k <= Len(M.cols) THEN M.cols[k] ELSE {}],
            !.dims = [k \in 1..n |-> IF k <= Len(M.dims) THEN M.dims[k] ELSE 0]]

SetColumn(M, j, c) ==
  [M EXCEPT !.cols[j + 1] = c,
            !.dims[j + 1] = IF c = {} THEN 0 ELSE Cardinality(c) - 1]

AddColumns(M, s, t) == [M EXCEPT !.cols[t + 1] = SymDiff(ColumnOf(M, s), ColumnOf(M, t))]

ClearColumn(M, j) == [M EXCEPT !.cols[j + 1] = {}]

SetDimension(M, j, d) == [M EXCEPT !.dims[j + 1] = d]

(* Rows must be column indices for the anti-transpose to exist. *)
IsSquare(M) == \A k \in 1..Len(M.cols) : M.cols[k] \subseteq 0..(NumColumns(M) - 1)

Dual(M) ==
  LET n == NumColumns(M)
      d == Dimension(M) IN
  [cols |-> [k \in 1..n |-> {n - 1 - j : j \in {j \in 0..n-1 : (n - k) \in ColumnOf(M, j)}}],
   dims |-> [k \in 1..n |-> d - DimensionOf(M, n - k)],
   dual |-> ~M.dual]
=============================================================================
