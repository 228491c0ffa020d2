------------------------------ MODULE Readers ------------------------------
(* What the files accepted by the library describe.                         *)
(*                                                                          *)
(* A file is a record: its format (fmt), its content (lines, rows, nodes,   *)
(* edges, ...) including comments and blank lines where the format has      *)
(* them, and the settings of the reader.  Text is a sequence of character   *)
(* codes, so that the order of identifiers can be stated here.  Weights are *)
(* integers (multiples of 1/1000).  For each format, the operators below    *)
(* give the complex the file describes: a function from simplices (sets of  *)
(* vertices) to the set of weights the file gives for them.  The set has    *)
(* more than one element only if the file lists an edge repeatedly.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NaN == 1999999999

------------------------------------------------------------------------------
(* Text *)

IsDigit(c)   == c \in 48..57
Numeric(s)   == Len(s) > 0 /\ \A i \in 1..Len(s) : IsDigit(s[i])

RECURSIVE DigitsValue(_, _)
DigitsValue(s, k) == IF k = 0 THEN 0 ELSE 10 * DigitsValue(s, k - 1) + (s[k] - 48)
NumberOf(s) == DigitsValue(s, Len(s))

(* s comes before t in the dictionary *)
RECURSIVE LexAt(_, _, _)
LexAt(s, t, k) ==
  IF k > Len(t) THEN FALSE
  ELSE IF k > Len(s) THEN TRUE
  ELSE IF s[k] # t[k] THEN s[k] < t[k]
  ELSE LexAt(s, t, k + 1)
Lex(s, t) == LexAt(s, t, 1)

------------------------------------------------------------------------------
(* Sequences and complexes *)

Elements(s) == { s[i] : i \in 1..Len(s) }

RECURSIVE Distinct(_, _, _)
Distinct(s, k, acc) ==
  IF k > Len(s) THEN acc
  ELSE Distinct(s, k + 1, IF \E i \in 1..Len(acc) : acc[i] = s[k] THEN acc ELSE Append(acc, s[k]))

Position(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

(* The functors for weights of edges and triangles *)
Combine(f, a, b) == CASE f = "max" -> Max2(a, b) [] f = "min" -> Min2(a, b) [] f = "sum" -> a + b

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

Closed(C) == \A s \in DOMAIN C : \A v \in s : Cardinality(s) > 1 => (s \ {v}) \in DOMAIN C

(* A reported complex is a sequence of <<vertices, weight>>. *)
Vertices(x) == Elements(x[1])

Describes(K, C) ==
  /\ Len(K) = Cardinality(DOMAIN C)
  /\ { Vertices(K[i]) : i \in 1..Len(K) } = DOMAIN C
  /\ \A i \in 1..Len(K) : /\ K[i][2] \in C[Vertices(K[i])]
                          /\ Len(K[i][1]) = Cardinality(Vertices(K[i]))

Ascending(K) ==
  \A i \in 1..(Len(K) - 1) :
    \/ K[i][2] < K[i + 1][2]
    \/ K[i][2] = K[i + 1][2] /\ Len(K[i][1]) <= Len(K[i + 1][1])

Descending(K) ==
  \A i \in 1..(Len(K) - 1) :
    \/ K[i][2] > K[i + 1][2]
    \/ K[i][2] = K[i + 1][2] /\ Len(K[i][1]) <= Len(K[i + 1][1])

(* Complex with the given vertices (function to weights) and edges (set of  *)
(* <<vertex, vertex, weight>>).                                             *)
Graph(VW, E) ==
  [ s \in { {v} : v \in DOMAIN VW } \cup { {e[1], e[2]} : e \in E } |->
      IF Cardinality(s) = 1 THEN { VW[CHOOSE v \in s : TRUE] }
      ELSE { e[3] : e \in { x \in E : {x[1], x[2]} = s } } ]

------------------------------------------------------------------------------
(* Edge lists.  lines: k = "e" (edge u v and optionally a weight), comments *)
(* and blank lines.  Numbers are vertices themselves; names are numbered in *)
(* the order of their first appearance.                                     *)

DataLines(d) == LET Data(l) == l.k = "e" IN SelectSeq(d.lines, Data)

RECURSIVE EndPoints(_, _)
EndPoints(L, k) == IF k = 0 THEN << >> ELSE EndPoints(L, k - 1) \o << L[k].u, L[k].v >>

EdgeListComplex(d) ==
  LET L == DataLines(d)
      N == Distinct(EndPoints(L, Len(L)), 1, << >>)
      Id(x) == IF Numeric(x) THEN NumberOf(x) ELSE Position(N, x) - 1
      W(l) == IF d.weights /\ l.hw THEN l.w ELSE 0
      V == { Id(N[i]) : i \in 1..Len(N) }
  IN Graph([v \in V |-> 0], { << Id(L[i].u), Id(L[i].v), W(L[i]) >> : i \in 1..Len(L) })

------------------------------------------------------------------------------
(* Matrices.  rows: the rows of values. *)

Entries(R) == UNION { Elements(R[i]) : i \in 1..Len(R) }

(* Square symmetric matrix of edge weights.  The functor is applied to the  *)
(* largest and smallest value of the matrix and the entry.                  *)
AdjacencyWeight(d, mx, mn, x) == CASE d.f = "id" -> x [] d.f = "flip" -> mx - x [] d.f = "range" -> mx - mn + x

AdjacencyComplex(d) ==
  LET R  == d.rows
      n  == Len(R)
      U  == Entries(R) \ {NaN}
      mx == MaxOf(U)
      mn == MinOf(U)
      vw == CASE d.vw = "max"  -> AdjacencyWeight(d, mx, mn, mx)
              [] d.vw = "min"  -> AdjacencyWeight(d, mx, mn, mn)
              [] d.vw = "zero" -> 0
      Present(x) == ~(d.nozero /\ x = 0) /\ ~(d.nonan /\ x = NaN)
      E  == { p \in (0..(n - 1)) \X (0..(n - 1)) : p[1] < p[2] /\ Present(R[p[1] + 1][p[2] + 1]) }
  IN Graph([v \in 0..(n - 1) |-> vw],
           { << p[1], p[2], AdjacencyWeight(d, mx, mn, R[p[1] + 1][p[2] + 1]) >> : p \in E })

(* Rows are the first class of nodes, columns the second one. *)
Abs(x) == IF x < 0 THEN -x ELSE x
BipartiteComplex(d) ==
  LET R == d.rows
      h == Len(R)
      w == Len(R[1])
      At(v) == IF v < h THEN { R[v + 1][j] : j \in 1..w } ELSE { R[i][v - h + 1] : i \in 1..h }
      MinAbs(S) == { x \in S : \A y \in S : Abs(x) <= Abs(y) }
      VW(v) == CASE d.vw = "global" -> { MinOf(Entries(R)) }
                 [] d.vw = "min"    -> { MinOf(At(v)) }
                 [] d.vw = "abs"    -> MinAbs(At(v))
      V == { {v} : v \in 0..(h + w - 1) }
      E == { {i, h + j} : i \in 0..(h - 1), j \in 0..(w - 1) }
  IN [ s \in V \cup E |->
         IF s \in V THEN VW(CHOOSE v \in s : TRUE)
         ELSE { R[MinOf(s) + 1][MaxOf(s) - h + 1] } ]

(* Values on a grid; weights of edges and triangles from their vertices.    *)
(* Diagonals are a set of pairs of offsets, triangles of triples.           *)
RECURSIVE CombineAll(_, _, _)
CombineAll(f, val, s) ==
  LET v == CHOOSE x \in s : TRUE IN
  IF Cardinality(s) = 1 THEN val[v] ELSE Combine(f, val[v], CombineAll(f, val, s \ {v}))

FromVertices(f, val, S) ==
  [ s \in { {v} : v \in DOMAIN val } \cup S |-> { CombineAll(f, val, s) } ]

GridComplex(d, diagonal, triangles) ==
  LET R == d.rows
      h == Len(R)
      w == Len(R[1])
      N(x, y) == y * w + x
      val == [ v \in 0..(h * w - 1) |-> R[(v \div w) + 1][(v % w) + 1] ]
      Cells == (0..(w - 2)) \X (0..(h - 2))
      H == { { N(x, y), N(x + 1, y) } : x \in 0..(w - 2), y \in 0..(h - 1) }
      V == { { N(x, y), N(x, y + 1) } : x \in 0..(w - 1), y \in 0..(h - 2) }
      A(c) == N(c[1], c[2])             B(c) == N(c[1] + 1, c[2])
      C(c) == N(c[1] + 1, c[2] + 1)     D(c) == N(c[1], c[2] + 1)
      G == CASE diagonal = "main" -> { { A(c), C(c) } : c \in Cells }
             [] diagonal = "anti" -> { { B(c), D(c) } : c \in Cells }
      T == IF ~triangles THEN {}
           ELSE CASE diagonal = "main" -> { { A(c), B(c), C(c) } : c \in Cells } \cup { { A(c), C(c), D(c) } : c \in Cells }
                  [] diagonal = "anti" -> { { A(c), B(c), D(c) } : c \in Cells } \cup { { B(c), C(c), D(c) } : c \in Cells }
  IN FromVertices(d.f, val, H \cup V \cup G \cup T)

(* Structured grid with dims = <<nx, ny, nz>> and values vals: x fastest *)
StructuredGridComplex(d) ==
  LET nx == d.dims[1] ny == d.dims[2] nz == d.dims[3]
      P == (0..(nx - 1)) \X (0..(ny - 1)) \X (0..(nz - 1))
      N(p) == (p[3] * ny + p[2]) * nx + p[1]
      X == { { N(p), N(<<p[1] + 1, p[2], p[3]>>) } : p \in { q \in P : q[1] + 1 < nx } }
      Y == { { N(p), N(<<p[1], p[2] + 1, p[3]>>) } : p \in { q \in P : q[2] + 1 < ny } }
      Z == { { N(p), N(<<p[1], p[2], p[3] + 1>>) } : p \in { q \in P : q[3] + 1 < nz } }
  IN FromVertices(d.f, [ v \in 0..(nx * ny * nz - 1) |-> d.vals[v + 1] ], X \cup Y \cup Z)

------------------------------------------------------------------------------
(* GML and GraphML.  nodes: id, optionally weight, value, label; edges:     *)
(* source, target, optionally weight and value.                             *)

Ids(d) == { d.nodes[i].id : i \in 1..Len(d.nodes) }
Rank(S, x) == Cardinality({ y \in S : Lex(y, x) })

(* Numeric identifiers are vertices themselves, others are numbered in      *)
(* dictionary order.                                                        *)
GMLVertex(d, x) == IF Numeric(x) THEN NumberOf(x) ELSE Rank(Ids(d), x)

GMLNodeWeight(x) == IF x.hw THEN x.w ELSE IF x.hv THEN x.v ELSE 0

GMLComplex(d) ==
  LET V == { GMLVertex(d, x) : x \in Ids(d) }
      Node(v) == CHOOSE i \in 1..Len(d.nodes) : GMLVertex(d, d.nodes[i].id) = v
      VW == [ v \in V |-> GMLNodeWeight(d.nodes[Node(v)]) ]
      EW(e) == IF e.hw THEN e.w ELSE IF e.hv THEN e.v
               ELSE Combine(d.f, VW[GMLVertex(d, e.s)], VW[GMLVertex(d, e.t)])
  IN Graph(VW, { << GMLVertex(d, d.edges[i].s), GMLVertex(d, d.edges[i].t), EW(d.edges[i]) >> : i \in 1..Len(d.edges) })

GraphMLComplex(d) ==
  LET I == Ids(d)
      V == 0..(Cardinality(I) - 1)
      Node(v) == CHOOSE i \in 1..Len(d.nodes) : Rank(I, d.nodes[i].id) = v
      VW == [ v \in V |-> LET x == d.nodes[Node(v)] IN IF d.nodew /\ x.hw THEN x.w ELSE 0 ]
      EW(e) == IF d.edgew THEN (IF e.hw THEN e.w ELSE 0)
               ELSE IF d.nodew THEN Combine(d.f, VW[Rank(I, e.s)], VW[Rank(I, e.t)])
               ELSE 0
  IN Graph(VW, { << Rank(I, d.edges[i].s), Rank(I, d.edges[i].t), EW(d.edges[i]) >> : i \in 1..Len(d.edges) })

(* Labels in the order of the vertices; an empty one if there is none *)
RECURSIVE Ordered(_, _)
Ordered(S, acc) ==
  IF S = {} THEN acc
  ELSE LET m == CHOOSE x \in S : \A y \in S : x.v <= y.v IN Ordered(S \ {m}, Append(acc, m.label))

GMLLabels(d) ==
  Ordered({ [v |-> GMLVertex(d, x.id), label |-> x.label] : x \in Elements(d.nodes) }, << >>)

------------------------------------------------------------------------------
(* Pajek.  n vertices, numbered from 1 or listed with labels; edges.        *)

PajekComplex(d) ==
  LET V == IF Len(d.nodes) = 0 THEN 1..d.n ELSE { NumberOf(x) : x \in Ids(d) } IN
  Graph([ v \in V |-> 0 ],
        { << NumberOf(e.s), NumberOf(e.t), IF e.hw THEN e.w ELSE 0 >> : e \in Elements(d.edges) })

PajekLabels(d) ==
  Ordered({ [v |-> NumberOf(x.id), label |-> x.label] : x \in Elements(d.nodes) }, << >>)

------------------------------------------------------------------------------
(* Triangulations: only the listed simplices, all of weight zero. *)

ListedSimplices(L) == [ s \in { Elements(L[i]) : i \in 1..Len(L) } |-> {0} ]

(* Functions on a line *)
PathComplex(f, values) ==
  LET n == Len(values) IN
  FromVertices(f, [ v \in 0..(n - 1) |-> values[v + 1] ], { {i, i + 1} : i \in 0..(n - 2) })

(* The same as a filtered boundary matrix: columns cols (rows are counted   *)
(* from zero) and the weights vals in the order of the filtration.          *)
RECURSIVE Walk(_, _)
Walk(path, E) ==
  LET v == path[Len(path)]
      N == { w \in UNION { e \in E : v \in e } : \A i \in 1..Len(path) : path[i] # w }
  IN IF N = {} THEN path ELSE Walk(Append(path, CHOOSE w \in N : TRUE), E)

FilteredPath(values, cols, vals) ==
  LET n == Len(values)
      J == 1..Len(cols)
      V == { j \in J : Len(cols[j]) = 0 }
      Ends(j) == { x + 1 : x \in Elements(cols[j]) }
      E == { Ends(j) : j \in J \ V }
  IN
  /\ Len(cols) = 2 * n - 1 /\ Len(vals) = 2 * n - 1
  /\ \A j \in 1..(2 * n - 2) : vals[j] <= vals[j + 1]
  /\ Cardinality(V) = n /\ Cardinality(E) = n - 1
  /\ \A j \in J \ V : /\ Len(cols[j]) = 2 /\ Cardinality(Ends(j)) = 2 /\ Ends(j) \subseteq V
                      /\ \A i \in Ends(j) : i < j
                      /\ vals[j] = MaxOf({ vals[i] : i \in Ends(j) })
  /\ \E v \in V :
       LET P == Walk(<< v >>, E) IN
       /\ Cardinality({ e \in E : v \in e }) <= 1
       /\ Len(P) = n
       /\ \A i \in 1..n : vals[P[i]] = values[i]

(* Meshes: props are the names of the vertex properties, verts their values *)
MeshComplex(d) ==
  LET n == Len(d.verts)
      k == { i \in 1..Len(d.props) : d.props[i] = d.prop }
      W(v) == IF k = {} THEN 0 ELSE d.verts[v + 1][CHOOSE i \in k : TRUE]
      T == { Elements(d.faces[i]) : i \in 1..Len(d.faces) }
      E == UNION { { t \ {v} : v \in t } : t \in T }
  IN FromVertices("max", [ v \in 0..(n - 1) |-> W(v) ], E \cup T)

(* Spectra: entries <<position, intensity>> *)
SpectrumComplex(d, weight(_)) ==
  LET n == Len(d.entries) IN
  FromVertices("min", [ v \in 0..(n - 1) |-> weight(d.entries[v + 1][2]) ], { {i, i + 1} : i \in 0..(n - 2) })

RECURSIVE Total(_, _)
Total(s, k) == IF k = 0 THEN 0 ELSE Total(s, k - 1) + s[k][2]

SpectrumWeight(d, x) ==
  IF d.normalize THEN (x * 1000) \div Total(d.entries, Len(d.entries)) ELSE x

------------------------------------------------------------------------------
(* Collections of graphs as one sparse adjacency list.  graph[i] is the     *)
(* graph node i belongs to.                                                 *)

GraphIds(d) == Elements(d.graph)

RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN << >> ELSE LET m == MinOf(S) IN << m >> \o SortedSeq(S \ {m})

SparseComplex(d, g) ==
  LET V == { i \in 1..Len(d.graph) : d.graph[i] = g }
      E == { i \in 1..Len(d.edges) : d.edges[i][1] \in V }
      NW(v) == IF d.na > 0 THEN d.nattr[v][d.na] ELSE 0
      EW(i) == IF d.ea > 0 THEN d.eattr[i][d.ea] ELSE 0
  IN Graph([ v \in V |-> NW(v) ], { << d.edges[i][1], d.edges[i][2], EW(i) >> : i \in E })

------------------------------------------------------------------------------
(* Reading one file: d is the file with the settings, r what was reported.  *)

SetOfPairs(s) == { << s[i][1], s[i][2] >> : i \in 1..Len(s) }

AcceptEdgeList(d, r) == Describes(r.K, EdgeListComplex(d))

AcceptAdjacency(d, r) ==
  /\ Describes(r.K, AdjacencyComplex(d))
  /\ Ascending(r.K)
  /\ r.n = Len(d.rows)

AcceptBipartite(d, r) ==
  /\ Describes(r.K, BipartiteComplex(d))
  /\ Ascending(r.K)
  /\ r.h = Len(d.rows) /\ r.w = Len(d.rows[1])

AcceptMatrix(d, r) ==
  /\ Describes(r.K, GridComplex(d, "main", d.tri))
  /\ r.h = Len(d.rows) /\ r.w = Len(d.rows[1])

AcceptGML(d, r) ==
  /\ Describes(r.K, GMLComplex(d))
  /\ Len(r.labels) = Len(d.nodes)
  /\ SetOfPairs(r.labels) = { << x.id, x.label >> : x \in Elements(d.nodes) }
  /\ Len(r.index) = Len(d.nodes)
  /\ { r.index[i][2] : i \in 1..Len(r.index) } = 0..(Len(d.nodes) - 1)
  /\ { r.index[i][1] : i \in 1..Len(r.index) } = Ids(d)
  /\ \A i, j \in 1..Len(r.index) :
       GMLVertex(d, r.index[i][1]) < GMLVertex(d, r.index[j][1]) => r.index[i][2] < r.index[j][2]
  /\ Len(r.edgew) = Len(d.edges)
  /\ \A i \in 1..Len(d.edges) :
       \E j \in 1..Len(d.edges) :
         /\ d.edges[j].s = d.edges[i].s /\ d.edges[j].t = d.edges[i].t
         /\ r.edgew[i] = IF d.edges[j].hw THEN d.edges[j].w ELSE NaN

AcceptGraphML(d, r) ==
  /\ Describes(r.K, GraphMLComplex(d))
  /\ SetOfPairs(r.index) = { << x, Rank(Ids(d), x) >> : x \in Ids(d) }

AcceptPajek(d, r) ==
  /\ Describes(r.K, PajekComplex(d))
  /\ Len(r.labels) = Len(d.nodes)
  /\ SetOfPairs(r.labels) = { << x.id, x.label >> : x \in Elements(d.nodes) }

AcceptTriangulations(d, r) ==
  /\ Len(r.Ks) = Len(d.blocks)
  /\ \A i \in 1..Len(d.blocks) : Describes(r.Ks[i], ListedSimplices(d.blocks[i]))

AcceptFunctions(d, r) ==
  /\ Len(r.Ks) = Len(d.rows)
  /\ \A i \in 1..Len(d.rows) : Describes(r.Ks[i], PathComplex(d.f, d.rows[i]))

AcceptFunction(d, r) == FilteredPath(d.rows[1], r.cols, r.values)

AcceptPLY(d, r) == Describes(r.K, MeshComplex(d)) /\ Ascending(r.K)

AcceptVTK(d, r) ==
  /\ Describes(r.K, StructuredGridComplex(d))
  /\ r.name = d.name /\ r.type = d.type

AcceptSpectrum(d, r) ==
  LET W(x) == SpectrumWeight(d, x) IN
  /\ Describes(r.K, SpectrumComplex(d, W))
  /\ Descending(r.K)
  /\ Len(r.values) = Len(d.entries) /\ Len(r.intensities) = Len(d.entries)
  /\ SetOfPairs(r.values) = { << i - 1, d.entries[i][1] >> : i \in 1..Len(d.entries) }
  /\ SetOfPairs(r.intensities) = { << i - 1, W(d.entries[i][2]) >> : i \in 1..Len(d.entries) }

AcceptSparse(d, r) ==
  LET G == SortedSeq(GraphIds(d)) IN
  /\ Len(r.Ks) = Len(G)
  /\ \A i \in 1..Len(G) : Describes(r.Ks[i], SparseComplex(d, G[i])) /\ Ascending(r.Ks[i])
  /\ d.rgl => r.glabels = d.glabels
  /\ d.rnl => r.nlabels = d.nlabels

AcceptHDF5(d, r) == Describes(r.K, GridComplex(d, "anti", TRUE))

(* The reader that selects the format by the extension of the file name *)
AcceptGeneric(d, r) ==
  CASE d.as = "edges" -> Describes(r.K, EdgeListComplex(d))  /\ r.labels = << >>
    [] d.as = "gml"   -> Describes(r.K, GMLComplex(d))       /\ r.labels = GMLLabels(d)
    [] d.as = "pajek" -> Describes(r.K, PajekComplex(d))     /\ r.labels = PajekLabels(d)
    [] d.as = "ply"   -> AcceptPLY(d, r)                     /\ r.labels = << >>
    [] d.as = "vtk"   -> Describes(r.K, StructuredGridComplex(d)) /\ r.labels = << >>
    [] d.as = "hdf5"  -> AcceptHDF5(d, r)                    /\ r.labels = << >>

ReadingOK(d, r) ==
  IF "missing" \in DOMAIN d THEN "error" \in DOMAIN r      \* there is no such file
  ELSE IF "error" \in DOMAIN r THEN FALSE
  ELSE
  CASE d.fmt = "edges"     -> AcceptEdgeList(d, r)
    [] d.fmt = "adjacency" -> AcceptAdjacency(d, r)
    [] d.fmt = "bipartite" -> AcceptBipartite(d, r)
    [] d.fmt = "matrix"    -> AcceptMatrix(d, r)
    [] d.fmt = "gml"       -> AcceptGML(d, r)
    [] d.fmt = "graphml"   -> AcceptGraphML(d, r)
    [] d.fmt = "pajek"     -> AcceptPajek(d, r)
    [] d.fmt = "lex"       -> AcceptTriangulations(d, r)
    [] d.fmt = "function"  -> AcceptFunction(d, r)
    [] d.fmt = "functions" -> AcceptFunctions(d, r)
    [] d.fmt = "ply"       -> AcceptPLY(d, r)
    [] d.fmt = "vtk"       -> AcceptVTK(d, r)
    [] d.fmt = "spectrum"  -> AcceptSpectrum(d, r)
    [] d.fmt = "sparse"    -> AcceptSparse(d, r)
    [] d.fmt = "hdf5"      -> AcceptHDF5(d, r)
    [] d.fmt = "generic"   -> AcceptGeneric(d, r)
=============================================================================
