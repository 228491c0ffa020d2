---------------------------- MODULE Trace_Session ----------------------------
(* Validates recorded interpreter sessions.  Every call records what all     *)
(* registers show afterwards.                                                 *)
EXTENDS Session, StatefulTrace

StartSession(in) == [Fresh EXCEPT !.K = @] @@ [probes |-> in.probes]

InOrder(D, by) ==
  CASE by = "data"    -> SortedBy(D, DataLess)
    [] by = "greater" -> SortedBy(D, DataGreater)
    [] OTHER          -> SortedBy(D, LAMBDA x, y : LexLess(x.s, y.s))

(* Is D what the register op.r holds after a call that writes a complex? *)
ComplexOK(st, op, res, D) ==
  LET C == st.K[op.r] IN
  CASE op.op = "new"    -> D = InsertAll(<<>>, Content(op.items))
    [] op.op = "append" -> D = PushBack(C, SetOf(op.item.s), op.item.w)
    [] op.op = "sort"   -> IsPermutation(C, D) /\ InOrder(D, "lex") /\ Content(res.ret) = D
    [] op.op = "sortby" -> IsPermutation(C, D) /\ InOrder(D, op.by) /\ Content(res.ret) = D
    [] op.op = "expand" ->
         LET S == st.K[op.s]
             V == VerticesOf({s \in SimplicesOf(S) : Dim(s) = 0})
             E == {s \in SimplicesOf(S) : Dim(s) = 1}
         IN /\ Distinct(D) /\ SimplicesOf(D) = Flag(V, E, op.d)
            /\ \A x \in ItemsOf(D) : Dim(x.s) <= 1 => x.w = Lookup(S, x.s).w
    [] op.op = "maximum" ->
         LET S == st.K[op.s]
             w == [s \in {t \in SimplicesOf(S) : Dim(t) = 1} |-> Lookup(S, s).w]
         IN Distinct(D) /\ ItemsOf(D) = {Item(x.s, IF Dim(x.s) = 0 THEN x.w ELSE MaxEdgeWeight(w, x.s)) : x \in ItemsOf(S)}
    [] op.op = "load" ->
         /\ Distinct(D)
         /\ ItemsOf(D) = IF op.kind = "gml" THEN LoadedGraph(op.f, op.edges, op.by) ELSE LoadedEdges(op.edges, op.weights)

DiagramOK(st, op, res, D) ==
  LET old == st.D[op.r] IN
  CASE op.op = "diagrams" ->
         LET ds == Diagrams(st.K[op.s]) IN
         /\ Len(res.dgms) = Len(ds)
         /\ \A k \in 1..Len(ds) : SameDiagram(res.dgms[k], ds[k])
         /\ IF op.i <= Len(ds) THEN D = [dim |-> res.dgms[op.i].dim, pts |-> res.dgms[op.i].pts] ELSE D = old
    [] op.op = "zero" ->
         LET Z == ZeroPairs(st.K[op.s]) IN
         /\ D.dim = 0 /\ BagOf(D.pts) = BagOf(ZeroPoints(st.K[op.s], op.u))
         /\ SetOf(res.pairs) = Z /\ Len(res.pairs) = Cardinality(Z)
         /\ res.parray = res.pairs /\ res.psize = Len(res.pairs) /\ res.pbool = (res.pairs # <<>>)
    [] op.op = "points" -> D.pts = op.pts
    [] op.op = "rdiag"  -> D.dim = old.dim /\ BagOf(D.pts) = Dg!WithoutDiagonal(BagOf(old.pts))
    [] op.op = "runp"   -> D.dim = old.dim /\ BagOf(D.pts) = Dg!WithoutUnpaired(BagOf(old.pts))
    [] op.op = "setdim" -> D.dim = op.d /\ D.pts = old.pts

NormsOK(q, n) ==
  /\ n.inf = Dg!LargestPersistence(q)
  /\ Dg!AnyUnpaired(q) \/ \A k \in 1..3 : /\ n.total[k] = Dg!Total(q, k) /\ n.pnorm[k] = Dg!Total(q, k)
                                          /\ n.weighted[k] = Dg!WeightedTotal(q, k)
  /\ Dg!AnyUnpaired(q) \/ (n.default[1] = Dg!Total(q, 2) /\ n.default[2] = Dg!Total(q, 2))

(* What the registers show *)
ComplexViewOK(C, v, probes) ==
  /\ v.size = Len(C) /\ v.bool = (C # <<>>)
  /\ v.dim = (IF C = <<>> THEN -1 ELSE DimOf(SimplicesOf(C)))
  /\ Content(v.index) = C
  /\ \A k \in 1..Len(C) : v.items[k].s = Descending(C[k].s) /\ v.index[k].s = Descending(C[k].s)
  /\ \A k \in 1..Len(probes) : v.has[k] = Has(C, SetOf(probes[k]))
DiagramViewOK(D, v) ==
  /\ v.size = Len(D.pts) /\ v.bool = (D.pts # <<>>)
  /\ v.betti = Cardinality({k \in 1..Len(D.pts) : D.pts[k][2] = Forever})
  /\ v.array = D.pts /\ v.shape = <<Len(D.pts), 2>>
  /\ \A k \in 1..Len(D.pts) :
       /\ v.unpaired[k] = (D.pts[k][2] = Forever)
       /\ v.pers[k] = IF D.pts[k][2] = Forever THEN Forever ELSE D.pts[k][2] - D.pts[k][1]
FunctionViewOK(f, v) ==
  /\ v.vals = f.val /\ v.out = <<0, 0>>
  /\ f.fin => v.integral = IntegralOf(f)
  /\ v.sup = v.max
  /\ \A c \in 1..Cells : f.val[c] # 0 => f.val[c] <= v.max

StepSession(st, op, res) ==
  LET K == [r \in 1..2 |-> Content(res.K[r].items)]
      D == [r \in 1..2 |-> [dim |-> res.D[r].dim, pts |-> res.D[r].pts]]
      F == [r \in 1..2 |-> IF op.op \in OnFunctions /\ r = op.r THEN FunctionAfter(st, op) ELSE st.F[r]]
  IN [ok |-> /\ \A r \in 1..2 : IF op.op \in OnComplexes /\ r = op.r THEN ComplexOK(st, op, res, K[r]) ELSE K[r] = st.K[r]
             /\ \A r \in 1..2 : IF op.op \in OnDiagrams /\ r = op.r THEN DiagramOK(st, op, res, D[r]) ELSE D[r] = st.D[r]
             /\ op.op = "norms" => NormsOK(D[op.r].pts, res.norms)
             /\ \A r \in 1..2 : ComplexViewOK(K[r], res.K[r], st.probes) /\ DiagramViewOK(D[r], res.D[r])
                                /\ FunctionViewOK(F[r], res.F[r])
             /\ res.ne = ~res.eq
             /\ D[1] = D[2] => res.eq
             /\ BagOf(D[1].pts) # BagOf(D[2].pts) => ~res.eq,
      st |-> [K |-> K, D |-> D, F |-> F, probes |-> st.probes]]
=============================================================================
