----------------------------- MODULE MC_Readers -----------------------------
(* All small weighted graphs, described in several formats: the formats     *)
(* describe the same complex, and every described complex is closed.        *)
EXTENDS Readers, CSV, Json, IOUtils

CONSTANTS MaxN, Values

QuickValues == {0, 1000, -250}
ThoroughValues == {0, 1000, -250, 2000}

VARIABLES n, W                  \* number of vertices, weights of all pairs (0: no edge)

Pairs(k) == { p \in (0..(k - 1)) \X (0..(k - 1)) : p[1] < p[2] }
Init == n \in 1..MaxN /\ W \in [Pairs(n) -> Values]
Next == UNCHANGED << n, W >>
Spec == Init /\ [][Next]_<< n, W >>

At(i, j) == IF i = j THEN 0 ELSE W[<< Min2(i, j), Max2(i, j) >>]
Rows == [ i \in 1..n |-> [ j \in 1..n |-> At(i - 1, j - 1) ] ]
Name(v) == << 97 + v >>                     \* a, b, c, ...
Digits(v) == << 48 + v >>

RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE y \in S : TRUE IN << x >> \o SeqOf(S \ {x})
EdgeSeq == SeqOf({ p \in Pairs(n) : W[p] # 0 })

Adjacency == [ rows |-> Rows, vw |-> "zero", f |-> "id", nozero |-> TRUE, nonan |-> FALSE ]
EdgeList(Id(_)) ==
  [ weights |-> TRUE,
    lines |-> [ i \in 1..(2 * Len(EdgeSeq)) |->
                  IF i % 2 = 0 THEN [ k |-> "c" ]
                  ELSE LET p == EdgeSeq[(i + 1) \div 2] IN
                       [ k |-> "e", u |-> Id(p[1]), v |-> Id(p[2]), hw |-> TRUE, w |-> W[p] ] ] ]
Node(Id(_), v) == [ id |-> Id(v), label |-> << >>, hw |-> FALSE, w |-> 0, hv |-> FALSE, v |-> 0 ]
Edge(Id(_), p) == [ s |-> Id(p[1]), t |-> Id(p[2]), hw |-> TRUE, w |-> W[p], hv |-> FALSE, v |-> 0 ]
GML(Id(_)) ==
  [ f |-> "max", nodew |-> TRUE, edgew |-> TRUE, n |-> n,
    nodes |-> [ i \in 1..n |-> Node(Id, n - i) ],
    edges |-> [ i \in 1..Len(EdgeSeq) |-> Edge(Id, EdgeSeq[i]) ] ]
Sparse ==
  [ graph |-> [ i \in 1..n |-> 7 ], na |-> 0, ea |-> 1, nattr |-> << >>,
    edges |-> [ i \in 1..Len(EdgeSeq) |-> << EdgeSeq[i][1] + 1, EdgeSeq[i][2] + 1 >> ],
    eattr |-> [ i \in 1..Len(EdgeSeq) |-> << W[EdgeSeq[i]] >> ] ]

Connected(C) == UNION { s \in DOMAIN C : Cardinality(s) = 2 }
WithoutIsolated(C) == [ s \in { t \in DOMAIN C : t \subseteq Connected(C) } |-> C[s] ]
Shift(C) == [ s \in { { v - 1 : v \in t } : t \in DOMAIN C } |-> C[{ v + 1 : v \in s }] ]

A == AdjacencyComplex(Adjacency)

AllClosed == /\ Closed(A) /\ Closed(EdgeListComplex(EdgeList(Name)))
             /\ Closed(GridComplex([rows |-> Rows, f |-> "max"], "main", TRUE))
             /\ Closed(GridComplex([rows |-> Rows, f |-> "sum"], "anti", TRUE))
             /\ Closed(BipartiteComplex([rows |-> Rows, vw |-> "abs"]))
MatrixAndList == WithoutIsolated(A) = EdgeListComplex(EdgeList(Digits))
NamesAreNumbered ==
  LET C == EdgeListComplex(EdgeList(Name)) IN
  /\ Cardinality(DOMAIN C) = Cardinality(DOMAIN WithoutIsolated(A))
  /\ Connected(C) = 0..(Cardinality(Connected(C)) - 1)
NetworkFormats == /\ GMLComplex(GML(Digits)) = A /\ GMLComplex(GML(Name)) = A
                  /\ GraphMLComplex(GML(Digits)) = A /\ GraphMLComplex(GML(Name)) = A
OneBased == LET Id(v) == << 49 + v >> IN
            Shift(PajekComplex(GML(Id))) = A /\ Shift(SparseComplex(Sparse, 7)) = A
(* Sublevel and superlevel weights never violate the order of faces. *)
Filtered == LET C == TLCEval(GridComplex([rows |-> Rows, f |-> "max"], "main", TRUE))
                D == TLCEval(GridComplex([rows |-> Rows, f |-> "min"], "anti", TRUE)) IN
            /\ \A t \in DOMAIN C : \A v \in t : Cardinality(t) > 1 => MaxOf(C[t \ {v}]) <= MinOf(C[t])
            /\ \A t \in DOMAIN D : \A v \in t : Cardinality(t) > 1 => MinOf(D[t \ {v}]) >= MaxOf(D[t])

Export == CSVWrite("%1$s", <<ToJson(Rows)>>, IOEnv.EXPORT)
=============================================================================
