-------------------------- MODULE MC_GraphPrograms --------------------------
(* Weighted graphs on few vertices, built edge by edge; laws that relate what *)
(* the programs report about them.                                            *)
EXTENDS GraphPrograms, Json, CSV, IOUtils, TLC

CONSTANTS Size, Weights

Nodes == 1..Size
Pairs == {e \in SUBSET Nodes : Cardinality(e) = 2}

VARIABLE w

Start == w = [e \in {} |-> 0]
AddEdge == \E e \in Pairs \ DOMAIN w, x \in Weights :
  (\A g \in DOMAIN w : Min(g) < Min(e) \/ (Min(g) = Min(e) /\ Max(g) < Max(e))) /\ w' = [g \in DOMAIN w \cup {e} |-> IF g = e THEN x ELSE w[g]]
Next == AddEdge
Spec == Start /\ [][Next]_w

Matrix == [i \in Nodes |-> [j \in Nodes |-> IF {i, j} \in DOMAIN w THEN w[{i, j}] ELSE 0]]
Upto(t) == {e \in DOMAIN w : w[e] <= t}
EdgeSeq == SetToSeq(DOMAIN w)
Case(t, inv) == [nodes |-> [k \in Nodes |-> k], edges |-> [k \in 1..Len(EdgeSeq) |-> <<Min(EdgeSeq[k]), Max(EdgeSeq[k]), w[EdgeSeq[k]]>>],
                 t |-> 8 * t, top |-> 3, norm |-> FALSE, inv |-> inv]
Top == Max({0} \cup {w[e] : e \in DOMAIN w})

(* The diagram counts the components at every threshold *)
CountsComponents ==
  LET q == MatrixDiagrams(Matrix, TRUE, -1)[1].pts IN
  \A t \in 0..Top :
    Cardinality({k \in 1..Len(q) : q[k][2] > t}) = Cardinality(Components(GraphOn(Nodes, {e \in DOMAIN w : Top - w[e] <= t})))
(* It contains all vertices, and cycles that are not filled *)
CountsCycles ==
  LET ds == MatrixDiagrams(Matrix, TRUE, -1)
      I == {k \in 1..Len(ds) : ds[k].d = 1}
  IN /\ Len(ds[1].pts) = Size
     /\ CycleRank(Nodes, DOMAIN w) = IF I = {} THEN 0 ELSE Len(ds[Min(I)].pts)
     /\ CycleRank(Nodes, DOMAIN w) = Betti(GraphOn(Nodes, DOMAIN w), 1)
(* Communities of edges are components, communities are nested *)
VerticesIn(P) == UNION P
CommunitiesAreComponents == \A t \in Weights :
  {VerticesIn(P) : P \in Communities(CliqueComplex(Case(t, FALSE)), 1)} =
    {C \in Components(GraphOn(Nodes, Upto(t))) : Cardinality(C) > 1}
Nested == \A t \in Weights, k \in 2..3 :
  \A P \in Communities(CliqueComplex(Case(t, FALSE)), k) :
    /\ \E Q \in Communities(CliqueComplex(Case(t, FALSE)), k - 1) : VerticesIn(P) \subseteq VerticesIn(Q)
    /\ \E Q \in Communities(CliqueComplex(Case(t + 1, FALSE)), k) : P \subseteq Q
Partition == \A t \in Weights, k \in 1..3 :
  LET S == CliqueComplex(Case(t, FALSE))
      Ps == Communities(S, k)
  IN UNION Ps = SimplicesOfDim(S, k) /\ \A P, Q \in Ps : P # Q => P \cap Q = {}
(* Degree filtrations: superlevel sets and sublevel sets see the same graph *)
Collection(by) == [ind |-> [k \in Nodes |-> 1], edges |-> Case(0, FALSE).edges, d |-> 2, f |-> 2, norm |-> FALSE, by |-> by]
Unfiltered == \A by \in {"max", "sum", "super"} :
  LET ds == CollectionDiagrams(Collection(by), 1)
      n(d) == LET I == {k \in 1..Len(ds) : ds[k].d = d} IN
              IF I = {} THEN 0 ELSE Cardinality({j \in 1..Len(ds[Min(I)].pts) : Unpaired(ds[Min(I)].pts[j])})
      S == ExpandedGraph(GraphOf(Collection(by), 1), 2)
  IN \A d \in 0..2 : n(d) = Betti(S, d)

Export == DOMAIN w # {} => CSVWrite("%1$s", <<ToJson([n |-> Size, edges |-> Case(0, FALSE).edges])>>, IOEnv.EXPORT)
=============================================================================
