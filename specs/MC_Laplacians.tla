---------------------------- MODULE MC_Laplacians ----------------------------
(* Graphs grow by adding vertices and edges.                                  *)
EXTENDS Laplacians, CSV, Json, IOUtils

CONSTANTS MaxVertices, MaxWeight

VARIABLES n, edges
vars == << n, edges >>
Pairs == { p \in (1..n) \X (1..n) : p[1] < p[2] }
Last == IF edges = << >> THEN << 0, 0 >> ELSE << edges[Len(edges)][1], edges[Len(edges)][2] >>
After(p, q) == p[1] > q[1] \/ (p[1] = q[1] /\ p[2] > q[2])
Init == n = 1 /\ edges = << >>
Next == \/ n < MaxVertices /\ edges = << >> /\ n' = n + 1 /\ UNCHANGED edges
        \/ \E p \in Pairs : \E w \in 1..MaxWeight :
             After(p, Last) /\ edges' = Append(edges, << p[1], p[2], w >>) /\ UNCHANGED n
Spec == Init /\ [][Next]_vars

Laws ==
  LET W == TLCEval(Adjacency(n, edges))
      L == TLCEval(Laplacian(W))
      H == TLCEval(Heat(L, 1, 4))
      S == TLCEval(Shrunk(H, 64))
  IN
  /\ \A i \in 1..n : RowSum(L, i) = 0 /\ L[i][i] >= 0
  /\ Det(L) = 0 /\ 0 \in Roots(L)
  (* Columns of the heat kernel are distributions. *)
  /\ Feasible(L, 1, 4) => \A i \in 1..n : Abs(RowSum(H, i) - HeatUnit) <= 100
  /\ Feasible(L, 1, 4) => \A i, j \in 1..n : H[i][j] >= -100 /\ (Connected(W) => H[i][j] > 0)
  /\ Feasible(L, 2, 4) => Close(Shrunk(Product(S, S), 16384), Shrunk(Heat(L, 2, 4), 64), n + 2)
Export == CSVWrite("%1$s", <<ToJson([n |-> n, edges |-> edges])>>, IOEnv.EXPORT)
=============================================================================
