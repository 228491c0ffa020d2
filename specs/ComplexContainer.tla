-------------------------- MODULE ComplexContainer --------------------------
(* A simplicial complex as a data structure: a sequence of weighted         *)
(* simplices [s |-> vertex set, w |-> weight] without repeated vertex sets.  *)
(* Operators denote the content after each operation.                        *)
EXTENDS Complexes

Item(s, w)    == [s |-> s, w |-> w]
(* Recorded items [s |-> vertex list, w |-> weight] *)
ItemOf(x)     == Item(SetOf(x.s), x.w)
Content(q)    == [k \in 1..Len(q) |-> ItemOf(q[k])]
(* Vertex functions are sequences indexed by the vertex, starting at zero *)
ValueOf(f, v) == f[v + 1]

SimplicesOf(C) == {C[k].s : k \in 1..Len(C)}
Has(C, s)     == s \in SimplicesOf(C)
Position(C, s) == CHOOSE k \in 1..Len(C) : C[k].s = s       \* one-based
Lookup(C, s)  == C[Position(C, s)]
Distinct(C)   == Cardinality(SimplicesOf(C)) = Len(C)
Closed(C)     == IsComplex(SimplicesOf(C))
ItemsOf(C)    == {C[k] : k \in 1..Len(C)}

(* Appending: a simplex already present is left alone. *)
PushBack(C, s, w) == IF Has(C, s) THEN C ELSE Append(C, Item(s, w))
InsertAll(C, items) == FoldLeft(LAMBDA acc, x : PushBack(acc, x.s, x.w), C, items)

(* Replacing is refused if it would duplicate another simplex. *)
CanReplace(C, k, s) == \A j \in 1..Len(C) : j # k => C[j].s # s
Replace(C, k, s, w) == IF CanReplace(C, k, s) THEN [C EXCEPT ![k] = Item(s, w)] ELSE C

(* Removing takes all cofaces along; the order of the rest is kept. *)
RemoveCofaces(C, s)   == SelectSeq(C, LAMBDA x : ~(s \subseteq x.s))
RemoveOne(C, s) == SelectSeq(C, LAMBDA x : x.s # s)

MissingFaces(C) == Closure(SimplicesOf(C)) \ SimplicesOf(C)

(* Face completion appends exactly the missing faces, in any order, each    *)
(* with the weight of some coface.                                          *)
IsCompletion(C, D) ==
  /\ Len(D) >= Len(C)
  /\ SubSeq(D, 1, Len(C)) = C
  /\ Distinct(D)
  /\ SimplicesOf(D) = Closure(SimplicesOf(C))
  /\ \A k \in Len(C)+1..Len(D) : \E j \in 1..Len(C) : D[k].s \subseteq C[j].s /\ C[j].w = D[k].w

(* Weights recomputed from the vertices, or (keeping edges) from the edges *)
VertexWeight(C, v) == Lookup(C, {v}).w
EdgesIn(s) == {e \in SUBSET s : Cardinality(e) = 2}

Recalculated(C, max, keepEdges) ==
  LET pick(S) == IF max THEN Max(S) ELSE Min(S)
      value(x) == IF Dim(x.s) = 0 \/ (keepEdges /\ Dim(x.s) = 1) THEN x.w
                  ELSE IF keepEdges THEN pick({Lookup(C, e).w : e \in EdgesIn(x.s)})
                  ELSE pick({VertexWeight(C, v) : v \in x.s})
  IN [k \in 1..Len(C) |-> Item(C[k].s, value(C[k]))]

(* Weights prescribed for the vertices; f maps vertices to weights *)
FromVertexFunction(C, f(_)) ==
  [k \in 1..Len(C) |-> Item(C[k].s, Max({f(v) : v \in C[k].s}))]

-----------------------------------------------------------------------------
(* Orders.  Simplices are compared as descending vertex sequences.          *)
Descending(s) == SetToSortSeq(s, LAMBDA a, b : a > b)

RECURSIVE LexSeq(_, _, _)
LexSeq(a, b, k) ==
  IF k > Len(b) THEN FALSE
  ELSE IF k > Len(a) THEN TRUE
  ELSE IF a[k] < b[k] THEN TRUE
  ELSE IF a[k] > b[k] THEN FALSE
  ELSE LexSeq(a, b, k + 1)

LexLess(s, t) == LexSeq(Descending(s), Descending(t), 1)

(* The weight filtration: weight, then dimension, then lexicographic *)
DataLess(x, y) ==
  \/ x.w < y.w
  \/ x.w = y.w /\ Dim(x.s) < Dim(y.s)
  \/ x.w = y.w /\ Dim(x.s) = Dim(y.s) /\ LexLess(x.s, y.s)
DataGreater(x, y) ==
  \/ x.w > y.w
  \/ x.w = y.w /\ Dim(x.s) < Dim(y.s)
  \/ x.w = y.w /\ Dim(x.s) = Dim(y.s) /\ LexLess(x.s, y.s)

(* Lower and upper stars of a vertex function f; ties may be broken by any   *)
(* total order that puts faces before cofaces.                               *)
LowerLess(f(_), x, y) ==
  LET a == Max({f(v) : v \in x.s})  b == Max({f(v) : v \in y.s})
  IN a < b \/ (a = b /\ x # y /\ ~(y.s \subseteq x.s))
UpperLess(f(_), x, y) ==
  LET a == Min({f(v) : v \in x.s})  b == Min({f(v) : v \in y.s})
  IN a > b \/ (a = b /\ x # y /\ ~(y.s \subseteq x.s))

IsPermutation(C, D) == Len(C) = Len(D) /\ ItemsOf(C) = ItemsOf(D) /\ Distinct(D)
SortedBy(D, less(_, _)) == \A k \in 1..Len(D)-1 : less(D[k], D[k+1])

(* Every simplex after all of its faces that are present *)
FacesFirst(D) == \A j, k \in 1..Len(D) : (D[j].s \subseteq D[k].s /\ j # k) => j < k
Monotone(C)   == \A j, k \in 1..Len(C) : C[j].s \subseteq C[k].s => C[j].w <= C[k].w
=============================================================================
