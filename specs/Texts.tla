-------------------------------- MODULE Texts --------------------------------
(* Values written as text and read back.  A document is a sequence of lines: *)
(* k = "v" (a value, x is the sequence of its numbers), "c" (a comment),     *)
(* "b" (blank).  A document may lack the line break after its last line.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ValueLine(l) == l.k = "v"
Values(doc) == LET V == SelectSeq(doc, ValueLine) IN [ i \in 1..Len(V) |-> V[i].x ]

RangeOf(s) == { s[i] : i \in 1..Len(s) }
Count(s, x) == Cardinality({ i \in 1..Len(s) : s[i] = x })
(* The same elements equally often, in any order *)
SameBag(s, t) == Len(s) = Len(t) /\ \A x \in RangeOf(s) : Count(s, x) = Count(t, x)

(* A writer emits one line per element; a reader is a fold over the lines.  *)
Written(vs) == [ i \in 1..Len(vs) |-> [ k |-> "v", x |-> vs[i] ] ]
RECURSIVE ReadFrom(_, _, _)
ReadFrom(doc, i, acc) ==
  IF i > Len(doc) THEN acc
  ELSE ReadFrom(doc, i + 1, IF doc[i].k = "v" THEN Append(acc, doc[i].x) ELSE acc)

(* Diagrams: dimension and points; a point at infinity is a pair whose      *)
(* second element is the greatest value.                                    *)
SameDiagram(D, E) == D.dim = E.dim /\ SameBag(D.pts, E.pts)

(* Clouds: the points in their order *)
SameCloud(P, Q) == P = Q

(* Graphs: V is a sequence of vertices, E one of << u, v, w >> with u < v   *)
SameGraph(G, H) == SameBag(G.V, H.V) /\ SameBag(G.E, H.E)

(* Boundary matrices: one column per line, the line lists the dimension of  *)
(* the simplex and the indices of its faces.                                *)
SortedNumbers(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
ColumnOf(x, c) ==
  /\ c.dim = x[1]
  /\ SortedNumbers(c.rows)
  /\ RangeOf(c.rows) = { x[i] : i \in 2..Len(x) }
  /\ Len(c.rows) = Len(x) - 1

(* Drawings: points (with labels, if required) and segments with their      *)
(* coordinates                                                              *)
Drawn(G, P, labelled, r) ==
  /\ Len(r.points) = Len(G.V) /\ Len(r.labels) = Len(G.V)
  /\ SameBag([ i \in 1..Len(r.points) |-> << r.points[i], r.labels[i] >> ],
             [ i \in 1..Len(G.V) |-> << P[G.V[i] + 1], IF labelled THEN G.V[i] ELSE 0 >> ])
  /\ Len(r.lines) = Len(G.E)
  /\ SameBag([ i \in 1..Len(r.lines) |-> RangeOf(r.lines[i]) ],
             [ i \in 1..Len(G.E) |-> { P[G.E[i][1] + 1], P[G.E[i][2] + 1] } ])

(* Pictures name vertices: points with coordinates, then edges, triangles  *)
Pictured(G, P, T, r) ==
  /\ SameBag(r.points, [ i \in 1..Len(G.V) |-> << G.V[i], P[G.V[i] + 1] >> ])
  /\ SameBag([ i \in 1..Len(r.lines) |-> RangeOf(r.lines[i]) ], [ i \in 1..Len(G.E) |-> { G.E[i][1], G.E[i][2] } ])
  /\ SameBag([ i \in 1..Len(r.triangles) |-> RangeOf(r.triangles[i]) ], [ i \in 1..Len(T) |-> RangeOf(T[i]) ])
=============================================================================
