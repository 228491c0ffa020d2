------------------------- MODULE Trace_SymmetricMatrix -------------------------
(* A symmetric matrix: entries are addressed by unordered pairs of indices;  *)
(* entries never written are zero; copies are independent.                   *)
EXTENDS Integers, FiniteSets, StatefulTrace

Fresh(n) == [n |-> n, m |-> [p \in {} |-> 0]]
StartMatrix(in) == [A |-> Fresh(in.n), B |-> Fresh(0)]

Put(M, i, j, v) == [n |-> M.n, m |-> [p \in DOMAIN M.m \cup {{i, j}} |-> IF p = {i, j} THEN v ELSE M.m[p]]]
At(M, i, j) == IF {i, j} \in DOMAIN M.m THEN M.m[{i, j}] ELSE 0

StepMatrix(st, op, res) ==
  LET A == st.A  B == st.B IN
  CASE op.op = "set" ->
         IF op.i < A.n /\ op.j < A.n
         THEN [ok |-> res = "ok", st |-> [A |-> Put(A, op.i, op.j, op.v), B |-> B]]
         ELSE [ok |-> res = "out_of_range", st |-> st]
    [] op.op = "get" ->
         IF op.i < A.n /\ op.j < A.n
         THEN [ok |-> res = <<At(A, op.i, op.j), At(A, op.j, op.i)>>, st |-> st]
         ELSE [ok |-> res = "out_of_range", st |-> st]
    [] op.op = "copy" -> [ok |-> res = A.n, st |-> [A |-> A, B |-> A]]          \* B := copy of A
    [] op.op = "assign" -> [ok |-> res = B.n, st |-> [A |-> B, B |-> B]]        \* A := B
    [] op.op = "swap" -> [ok |-> res = <<B.n, A.n>>, st |-> [A |-> B, B |-> A]]
    [] op.op = "fresh" -> [ok |-> res = op.n, st |-> [A |-> A, B |-> Fresh(op.n)]]
    [] op.op = "all" -> [ok |-> /\ Len(res) = A.n
                                /\ \A i \in 1..A.n : Len(res[i]) = A.n /\ \A j \in 1..A.n : res[i][j] = At(A, i-1, j-1),
                         st |-> st]
    [] OTHER -> [ok |-> FALSE, st |-> st]
=============================================================================
