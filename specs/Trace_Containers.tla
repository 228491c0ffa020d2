--------------------------- MODULE Trace_Containers ---------------------------
EXTENDS Containers, StatefulTrace

Ans(ok, st) == [ ok |-> ok, st |-> st ]
StartPairings(in) == << << >>, << >> >>
StepPairings(st, op, res) ==
  LET r == op.r  P == st[r]  Put(Q) == [ st EXCEPT ![r] = Q ] IN
  CASE op.op = "add" -> Ans(res = Len(P) + 1, Put(Append(P, << op.c, op.d >>)))
    [] op.op = "erase" ->
         LET b == IF op.b > Len(P) THEN Len(P) ELSE op.b
             a == IF op.a > b THEN b ELSE op.a
         IN Ans(res = a, Put(Without(P, a, b)))
    [] op.op = "eraseOne" ->
         IF op.a >= Len(P) THEN Ans(res = -1, st) ELSE Ans(res = op.a, Put(Without(P, op.a, op.a + 1)))
    [] op.op = "sort" -> Ans(res = Len(P), Put(SortedPairs(P)))
    [] op.op = "copy" -> Ans(res = Len(P), [ st EXCEPT ![3 - r] = P ])
    [] op.op = "find" -> Ans(res.at = FindPair(P, op.c, op.d) /\ res.has = (<< op.c, op.d >> \in Range(P)), st)
    [] op.op = "findCreator" -> Ans(res.at = FindCreator(P, op.c) /\ res.has = (\E p \in Range(P) : p[1] = op.c), st)
    [] op.op = "list" -> Ans(res.pairs = P /\ res.size = Len(P) /\ res.empty = (P = << >>), st)
    [] op.op = "equal" -> Ans(res.eq = (st[1] = st[2]) /\ res.ne = (st[1] # st[2]), st)

StartSparse(in) == EmptyMatrix(in.n)
StepSparse(M, op, res) ==
  CASE op.op = "set" -> IF HasColumn(M, op.c) THEN Ans(res = "ok", SetEntry(M, op.row, op.c)) ELSE Ans(res = "out_of_range", M)
    [] op.op = "get" ->
         IF ~HasColumn(M, op.c) THEN Ans(res.state = "out_of_range", M)
         ELSE LET C == M.columns[op.c + 1] IN
              Ans(res.state = "ok" /\ res.entry = (op.row \in C) /\ res.column = Ascending(C) /\ res.n = Cardinality(C), M)
    [] op.op = "indices" ->
         (* A map of another length is refused; what the map is afterwards is  *)
         (* not prescribed.                                                    *)
         IF Len(op.map) = Len(M.columns) THEN Ans(res = "ok", [ M EXCEPT !.map = op.map, !.known = TRUE ])
         ELSE Ans(res = "length_error", [ M EXCEPT !.known = FALSE ])
    [] op.op = "index" ->
         IF ~M.known \/ ~HasColumn(M, op.c) THEN Ans(TRUE, M)
         ELSE Ans(res = (IF M.map = << >> THEN op.c ELSE M.map[op.c + 1]), M)
    [] op.op = "columns" -> Ans(res = Len(M.columns), M)
=============================================================================
