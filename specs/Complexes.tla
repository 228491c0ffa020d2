----------------------------- MODULE Complexes -----------------------------
(* Finite simplicial complexes and their homology over GF(2).               *)
(*                                                                          *)
(* A simplex is a non-empty finite set of vertices (integers).  A complex   *)
(* is a set of simplices that contains every face of its members.  A chain  *)
(* is a set of simplices; addition of chains is symmetric difference.       *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Range0(f) == {f[x] : x \in DOMAIN f}
SetOf(s)  == {s[k] : k \in 1..Len(s)}          \* elements of a sequence

Dim(s)      == Cardinality(s) - 1
Facets(s)   == IF Cardinality(s) <= 1 THEN {} ELSE {s \ {v} : v \in s}
Faces(s)    == SUBSET s \ {{}}                 \* s itself included
Closure(S)  == UNION {Faces(s) : s \in S}
IsComplex(S) == \A s \in S : s # {} /\ Facets(s) \subseteq S
VerticesOf(S) == UNION S
SimplicesOfDim(S, d) == {s \in S : Dim(s) = d}
DimOf(S)    == IF S = {} THEN -1 ELSE Max({Dim(s) : s \in S})


(* Boundary of a chain *)
Boundary(c) == FoldSet(LAMBDA s, acc : SymDiff(Facets(s), acc), {}, c)

-----------------------------------------------------------------------------
(* Column reduction over GF(2).  Columns are sets of positive integers; a   *)
(* basis is a function from pivots (maxima) to columns with that pivot.     *)
RECURSIVE ReduceColumn(_, _)
ReduceColumn(c, basis) ==
  IF c = {} THEN {}
  ELSE LET p == Max(c)
       IN IF p \in DOMAIN basis THEN ReduceColumn(SymDiff(c, basis[p]), basis) ELSE c

EmptyFun == [x \in {} |-> {}]

Extend(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

(* Basis spanned by the columns cols[1..Len(cols)] *)
Basis(cols) ==
  FoldLeft(LAMBDA b, c : LET r == ReduceColumn(c, b)
                         IN IF r = {} THEN b ELSE Extend(b, Max(r), r),
           EmptyFun, cols)

Rank(cols) == Cardinality(DOMAIN Basis(cols))

(* Betti numbers of a complex, by ranks of the boundary maps *)
SimplexIndex(S) == LET q == SetToSeq(S) IN [s \in S |-> CHOOSE k \in 1..Len(q) : q[k] = s]

BoundaryRank(S, d) ==
  IF d <= 0 THEN 0
  ELSE LET lower == SimplexIndex(SimplicesOfDim(S, d-1))
           upper == SetToSeq(SimplicesOfDim(S, d))
       IN Rank([k \in 1..Len(upper) |-> {lower[f] : f \in Facets(upper[k])}])

Betti(S, d) == Cardinality(SimplicesOfDim(S, d)) - BoundaryRank(S, d) - BoundaryRank(S, d+1)

BettiNumbers(S) == [d \in 1..DimOf(S)+1 |-> Betti(S, d-1)]

Euler(S) == FoldSet(LAMBDA s, acc : acc + (IF Dim(s) % 2 = 0 THEN 1 ELSE -1), 0, S)

(* Connected components: equivalence classes of vertices under edges *)
RECURSIVE Reach(_, _)
Reach(E, V) == LET N == V \cup UNION {e \in E : e \cap V # {}}
               IN IF N = V THEN V ELSE Reach(E, N)
ComponentOf(S, v) == Reach(SimplicesOfDim(S, 1), {v})
Components(S) == {ComponentOf(S, v) : v \in VerticesOf(S)}
=============================================================================
