------------------------------- MODULE Witness -------------------------------
(* Dowker and witness complexes.                                            *)
EXTENDS Rips, Paths

(* W is a square matrix (sequence of rows); positive entries are edges *)
Nodes(W) == 0..Len(W)-1
Completed(W) == Distances(Nodes(W), LAMBDA i, j : IF W[i+1][j+1] > 0 THEN W[i+1][j+1] ELSE Inf)
Admissible(W, R) == LET D == Completed(W) IN {p \in Nodes(W) \X Nodes(W) : D[p] <= R}

(* A relation P with weights D; Row(b) lists what base point b sees *)
Source(P, b) == {p[2] : p \in {q \in P : q[1] = b}}
Sink(P, b)   == {p[1] : p \in {q \in P : q[2] = b}}

UpTo(S, d) == IF d = 0 THEN S ELSE {s \in S : Dim(s) <= d}

DowkerSource(P, D, N, d) ==
  LET S == UpTo(UNION {Faces(Source(P, b)) : b \in N}, d)
  IN {Item(s, Min({Max({D[<<b, v>>] : v \in s}) : b \in {x \in N : s \subseteq Source(P, x)}})) : s \in S}
DowkerSink(P, D, N, d) ==
  LET S == UpTo(UNION {Faces(Sink(P, b)) : b \in N}, d)
  IN {Item(s, Min({Max({D[<<v, b>>] : v \in s}) : b \in {x \in N : s \subseteq Sink(P, x)}})) : s \in S}

-----------------------------------------------------------------------------
(* Witness complexes: dist(k, i) is the distance of point k to landmark i.  *)
(* nu-th smallest distance of point k to the n landmarks (0 if nu = 0)       *)
NthSmallest(n, nu, row(_)) ==
  IF nu = 0 THEN 0
  ELSE Min({row(i) : i \in {j \in 0..n-1 : Cardinality({m \in 0..n-1 : row(m) <= row(j)}) >= nu}})

(* Witnesses of an edge {i, j}; R is zero for squared distances *)
WitnessesOf(N, n, nu, R, dist(_, _), i, j) ==
  {k \in 0..N-1 : Max({dist(k, i), dist(k, j)}) <= R + NthSmallest(n, nu, LAMBDA m : dist(k, m))}

WitnessEdges(N, n, nu, R, dist(_, _)) ==
  {e \in {{i, j} : i, j \in 0..n-1} :
     Cardinality(e) = 2 /\ WitnessesOf(N, n, nu, R, dist, Min(e), Max(e)) # {}}
WitnessWeight(N, n, nu, R, dist(_, _), e) ==
  Min({Max({dist(k, Min(e)), dist(k, Max(e))}) : k \in WitnessesOf(N, n, nu, R, dist, Min(e), Max(e))})

(* Max-min landmarks: each one is as far as possible from its predecessors *)
MaxMin(metric, pts, idx) ==
  \A k \in 2..Len(idx) :
    LET gap(i) == Min({PointDistance(metric, pts[i+1], pts[idx[m]+1]) : m \in 1..k-1})
    IN \A i \in 0..Len(pts)-1 : gap(i) <= gap(idx[k])
=============================================================================
