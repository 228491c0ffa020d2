----------------------- MODULE Trace_ComplexContainer -----------------------
(* Validates histories of operations on a simplicial complex; after every   *)
(* call all views of the complex are recorded and must agree with the       *)
(* content the history denotes.                                             *)
EXTENDS ComplexContainer, StatefulTrace

StartComplex(in) == [C |-> <<>>, copy |-> <<>>]

InOrder(D, op) ==
  CASE op.by = "data"    -> SortedBy(D, DataLess)
    [] op.by = "greater" -> SortedBy(D, DataGreater)
    [] op.by = "lex"     -> SortedBy(D, LAMBDA x, y : LexLess(x.s, y.s))
    [] op.by = "lower"   -> SortedBy(D, LAMBDA x, y : LowerLess(LAMBDA v : ValueOf(op.f, v), x, y))
    [] op.by = "upper"   -> SortedBy(D, LAMBDA x, y : UpperLess(LAMBDA v : ValueOf(op.f, v), x, y))

(* Is D the content of the complex after op?  res.ret is the call's result. *)
AfterOp(C, op, res, D) ==
  CASE op.op = "push"    -> D = PushBack(C, SetOf(op.s), op.w)
    [] op.op = "assign"  -> D = InsertAll(<<>>, Content(op.items))
    [] op.op = "insert"  -> D = InsertAll(C, Content(op.items))
    [] op.op = "clear"   -> D = <<>>
    [] op.op = "replace" ->
         IF op.k > Len(C) THEN D = C
         ELSE /\ D = Replace(C, op.k, SetOf(op.s), op.w)
              /\ res.ret = CanReplace(C, op.k, SetOf(op.s))
    [] op.op = "remove"  -> D = RemoveCofaces(C, SetOf(op.s))
    [] op.op = "remove1" -> D = RemoveOne(C, SetOf(op.s))
    [] op.op = "faces"   -> IsCompletion(C, D)
    [] op.op = "weigh"   -> D = Recalculated(C, op.max, op.keep)
    [] op.op = "values"  -> D = FromVertexFunction(C, LAMBDA v : ValueOf(op.f, v))
    [] op.op = "shuffle" -> D = [k \in 1..Len(C) |-> C[op.p[k]]]
    [] op.op = "sort"    -> IsPermutation(C, D) /\ InOrder(D, op)
    [] op.op = "copy"    -> D = C
    [] op.op = "nothing" -> D = C

(* Every view shows the same content *)
NoWeights(C) == [k \in 1..Len(C) |-> C[k].s]

ViewsAgree(D, copy, o) ==
  /\ Distinct(D)
  /\ o.size = Len(D)
  /\ o.empty = (D = <<>>)
  /\ o.dim = (IF D = <<>> THEN -1 ELSE DimOf(SimplicesOf(D)))     \* -1: the call was refused
  /\ Content(o.bracket) = D
  /\ Content(o.at) = D
  /\ o.atEnd                                                       \* refused past the end
  /\ LET L == Content(o.lex) IN IsPermutation(D, L) /\ SortedBy(L, LAMBDA x, y : LexLess(x.s, y.s))
  /\ LET L == Content(o.bydim)
     IN IsPermutation(D, L) /\ \A k \in 1..Len(L)-1 : Dim(L[k].s) <= Dim(L[k+1].s)
  /\ \A d \in 1..Len(o.range) :
       LET R == Content(o.range[d])
       IN Distinct(R) /\ ItemsOf(R) = {x \in ItemsOf(D) : Dim(x.s) = d - 1}
  /\ LET R == Content(o.range12) IN Distinct(R) /\ ItemsOf(R) = {x \in ItemsOf(D) : Dim(x.s) \in {1, 2}}
  /\ Closed(D) => /\ SetOf(o.vertices) = VerticesOf(SimplicesOf(D))
                  /\ Cardinality(SetOf(o.vertices)) = Len(o.vertices)
                  /\ \A k \in 1..Len(o.vertices)-1 : o.vertices[k] < o.vertices[k+1]
  /\ \A k \in 1..Len(o.probes) :
       LET p == o.probes[k]  s == SetOf(p.s) IN
       /\ p.has = Has(D, s)
       /\ p.found = Has(D, s)
       /\ Has(D, s) => p.w = Lookup(D, s).w /\ p.index = Position(D, s) - 1
       /\ ~Has(D, s) => p.index = -1                              \* refused
  /\ o.eq = (NoWeights(D) = NoWeights(copy))
  /\ o.ne = (NoWeights(D) # NoWeights(copy))

StepOne(st, op, res) ==
  LET D == Content(res.items)
      copy == IF op.op = "copy" THEN D ELSE st.copy
  IN [ok |-> AfterOp(st.C, op, res, D) /\ ViewsAgree(D, copy, res), st |-> [C |-> D, copy |-> copy]]
=============================================================================
