------------------------ MODULE Trace_BoundaryMatrix ------------------------
(* Validates histories recorded from every column representation.           *)
EXTENDS BoundaryMatrix, StatefulTrace

SetOf(s) == {s[k] : k \in 1..Len(s)}

(* State: the matrix and a copy taken earlier *)
StartMatrix(in) == [M |-> EmptyMatrix, copy |-> EmptyMatrix]

(* Lines of a matrix file: [dimension, entries] per column *)
Loaded(q) == [cols |-> [k \in 1..Len(q) |-> SetOf(q[k][2])],
              dims |-> [k \in 1..Len(q) |-> q[k][1]], dual |-> FALSE]

Apply(st, op) ==
  CASE op.op = "resize" -> [st EXCEPT !.M = SetNumColumns(@, op.n)]
    [] op.op = "set"    -> [st EXCEPT !.M = SetColumn(@, op.j, SetOf(op.c))]
    [] op.op = "add"    -> [st EXCEPT !.M = AddColumns(@, op.s, op.t)]
    [] op.op = "clear"  -> [st EXCEPT !.M = ClearColumn(@, op.j)]
    [] op.op = "dim"    -> [st EXCEPT !.M = SetDimension(@, op.j, op.d)]
    [] op.op = "dual"   -> [st EXCEPT !.M = Dual(@)]
    [] op.op = "copy"   -> [st EXCEPT !.copy = st.M]
    [] op.op = "load"   -> [st EXCEPT !.M = Loaded(op.lines)]

(* What a representation shows after the operation *)
ObservationOK(st, o) ==
  LET M == st.M IN
  /\ o.n = NumColumns(M)
  /\ o.dual = M.dual
  /\ o.dim = Dimension(M)
  /\ o.eq = (M = st.copy)
  /\ o.ne = (M # st.copy)
  /\ Len(o.cols) = o.n /\ Len(o.dims) = o.n /\ Len(o.lows) = o.n
  /\ o.dims = M.dims
  /\ \A k \in 1..o.n :
       /\ SetOf(o.cols[k]) = M.cols[k]
       /\ Len(o.cols[k]) = Cardinality(M.cols[k])
       /\ o.lows[k] = Low(M, k - 1)

StepMatrix(st, op, res) ==
  LET nx == Apply(st, op) IN
  [ok |-> \A r \in 1..Len(res) : ObservationOK(nx, res[r]), st |-> nx]
=============================================================================
