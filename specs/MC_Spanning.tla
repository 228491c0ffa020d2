---------------------------- MODULE MC_Spanning ----------------------------
(* Kruskal's machine on all small matrices of weights, one edge at a time.    *)
EXTENDS Spanning, Json, CSV, IOUtils, TLC

CONSTANTS MaxN, Levels

VARIABLES size, weight, rest, tree, cycles
vars == <<size, weight, rest, tree, cycles>>

Start == /\ size \in 1..MaxN
         /\ weight \in [EdgesOf(size) -> Levels]
         /\ rest = EdgesOf(size) /\ tree = {} /\ cycles = {}
Lightest == {e \in rest : \A f \in rest : weight[e] <= weight[f]}
Take == \E e \in Lightest :
  /\ rest' = rest \ {e}
  /\ IF Joined(tree, e) THEN cycles' = cycles \cup {e} /\ UNCHANGED tree
                        ELSE tree' = tree \cup {e} /\ UNCHANGED cycles
  /\ UNCHANGED <<size, weight>>
Spec == Start /\ [][Take]_vars

MatrixOf == [i \in 1..size |-> [j \in 1..size |-> IF i = j THEN 0 ELSE weight[{i - 1, j - 1}]]]
TotalOf(T) == FoldSet(LAMBDA e, s : s + weight[e], 0, T)

Forest == IsForest(tree)
(* Whatever the order of ties, the tree has least weight among all of them *)
Minimal == rest = {} =>
  /\ IsTree(tree, 0..size-1)
  /\ \A T \in SUBSET EdgesOf(size) : (Cardinality(T) = size - 1 /\ IsTree(T, 0..size-1)) => TotalOf(tree) <= TotalOf(T)
  /\ WeightBag(weight, tree) = WeightBag(weight, TreeOf(weight))
(* Deaths of components are the weights of the tree; births of cycles are     *)
(* the weights of all other edges.                                            *)
Agrees == rest = {} =>
  LET ds == DiagramPoints(Filtration(MatrixOf, size, 2))
      zero == IF Len(ds) > 0 THEN ds[1].pts ELSE <<>>
      one == IF Len(ds) > 1 THEN ds[2].pts ELSE <<>>
  IN /\ BagOfSet({k \in 1..Len(zero) : zero[k][2] # Forever}, LAMBDA k : zero[k][2]) = WeightBag(weight, tree)
     /\ BagOf([k \in 1..Len(one) |-> one[k][1]]) = WeightBag(weight, cycles)
     /\ \A k \in 1..Len(one) : one[k][1] <= one[k][2] /\ \E e \in EdgesOf(size) : weight[e] = one[k][2]
Export == (rest = EdgesOf(size)) => CSVWrite("%1$s", <<ToJson(MatrixOf)>>, IOEnv.EXPORT)
=============================================================================
