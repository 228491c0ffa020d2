-------------------------------- MODULE Rips --------------------------------
(* Flag complexes of weighted graphs and Vietoris-Rips complexes of points. *)
EXTENDS ComplexContainer

Adjacent(E, u, v) == u # v /\ {u, v} \in E

(* Declarative: all vertex sets of at most d+1 pairwise adjacent vertices *)
IsClique(E, s) == \A u, v \in s : u = v \/ {u, v} \in E
FlagComplex(V, E, d) == {s \in SUBSET V : s # {} /\ Cardinality(s) <= d + 1 /\ IsClique(E, s)}

(* Constructive: extend cliques by larger vertices, one dimension at a time *)
RECURSIVE FlagLevel(_, _, _)
FlagLevel(V, E, d) ==
  IF d = 0 THEN {{v} : v \in V}
  ELSE UNION {{s \cup {v} : v \in {x \in V : (\A u \in s : u < x) /\ (\A u \in s : {u, x} \in E)}}
              : s \in FlagLevel(V, E, d - 1)}
Flag(V, E, d) == UNION {FlagLevel(V, E, k) : k \in 0..d}

(* w maps edges to weights *)
MaxEdgeWeight(w, s) == Max({w[e] : e \in EdgesIn(s)})

(* Integer metrics on integer points; the Euclidean one is squared *)
Abs(x) == IF x < 0 THEN -x ELSE x
PointDistance(metric, p, q) ==
  CASE metric = "euclidean" -> FoldLeft(LAMBDA acc, k : acc + (p[k] - q[k]) * (p[k] - q[k]), 0, [k \in 1..Len(p) |-> k])
    [] metric = "manhattan" -> FoldLeft(LAMBDA acc, k : acc + Abs(p[k] - q[k]), 0, [k \in 1..Len(p) |-> k])
    [] metric = "hamming"   -> Cardinality({k \in 1..Len(p) : p[k] # q[k]})

(* Distance strictly below R/2 *)
Below(metric, dist, R) == IF metric = "euclidean" THEN 4 * dist < R * R /\ R > 0 ELSE 2 * dist < R

(* The same for a bound that differs from R/2 by a hair (-1: below, 1: above) *)
Closer(metric, dist, R, hair) ==
  IF hair <= 0 THEN Below(metric, dist, R)
  ELSE R > 0 /\ IF metric = "euclidean" THEN 4 * dist <= R * R ELSE 2 * dist <= R

(* Vietoris-Rips complex: vertices are the positions 0..n-1 *)
RipsGraph(metric, pts, R, hair) ==
  {e \in {{i, j} : i, j \in 0..Len(pts)-1} :
     Cardinality(e) = 2 /\ Closer(metric, PointDistance(metric, pts[Min(e)+1], pts[Max(e)+1]), R, hair)}
Diameter(metric, pts, s) ==
  IF Cardinality(s) = 1 THEN 0
  ELSE Max({PointDistance(metric, pts[i+1], pts[j+1]) : i, j \in s})

RipsComplex(metric, pts, R, hair, d) == Flag(0..Len(pts)-1, RipsGraph(metric, pts, R, hair), d)
=============================================================================
