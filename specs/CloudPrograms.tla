---------------------------- MODULE CloudPrograms ----------------------------
(* Programs for point clouds: distributions of distances and degrees,        *)
(* persistence of data descriptors, spines, patches of images, and local      *)
(* dimensions.                                                                *)
EXTENDS Programs, Geometry, Spine

Pc == INSTANCE PointCloud
Es == INSTANCE Estimators

-----------------------------------------------------------------------------
(* Distances of all pairs in the order of their indices, squared; neighbours *)
(* of a point, including itself                                               *)
Metric(c, i, j) == PointDistance(c.metric, c.pts[i], c.pts[j])
SquaredMetric(c, i, j) == IF c.metric = "euclidean" THEN Metric(c, i, j) ELSE Metric(c, i, j) * Metric(c, i, j)
PairsInOrder(n) == SetToSortSeq({p \in (1..n) \X (1..n) : p[1] < p[2]}, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
SquaredDistances(c) == LET q == PairsInOrder(Len(c.pts)) IN [k \in 1..Len(q) |-> SquaredMetric(c, q[k][1], q[k][2])]
Around(c, i) == {j \in 1..Len(c.pts) : Below(c.metric, Metric(c, i, j), c.R)}
Degrees(c) == [i \in 1..Len(c.pts) |-> Cardinality(Around(c, i))]
(* The sum of the distances; those of points on a line are integral *)
WeightedDegrees(c) ==
  [i \in 1..Len(c.pts) |-> FoldSet(LAMBDA j, acc : acc + PointDistance("manhattan", c.pts[i], c.pts[j]), 0, Around(c, i))]

-----------------------------------------------------------------------------
(* Descriptors of points on a line.  c.xs are positions and c.u is the        *)
(* distance between neighbouring positions.  Values are integral after        *)
(* multiplication with the number of points (or after squaring, if c.p is 2). *)
Apart(c, i, j) == c.u * Magnitude(c.xs[i] - c.xs[j])
OthersOf(c, i) == SetToSeq((1..Len(c.xs)) \ {i})
Plain(c, i) ==
  LET q == OthersOf(c, i) IN
  IF c.desc = "density"
  THEN LET s == SortSeq([j \in 1..Len(c.xs) |-> Apart(c, i, j)], <) IN -Sum([k \in 1..c.n |-> s[k]])
  ELSE IF c.p = 0 THEN Max({0} \cup {Apart(c, i, j) : j \in SetOf(q)})
  ELSE Sum([k \in 1..Len(q) |-> IF c.p = 1 THEN Apart(c, i, q[k]) ELSE Apart(c, i, q[k]) * Apart(c, i, q[k])])
PlainValues(c) == [i \in 1..Len(c.xs) |-> Plain(c, i)]
RangeOf(c) == Max(SetOf(PlainValues(c))) - Min(SetOf(PlainValues(c)))
DescriptorValues(c) ==
  LET v == PlainValues(c)
      w == IF c.inv THEN [i \in 1..Len(v) |-> Max(SetOf(v)) - v[i]] ELSE v
  IN IF c.norm /\ RangeOf(c) # 0 THEN [i \in 1..Len(w) |-> w[i] - Min(SetOf(w))] ELSE w
DescriptorDiagrams(c) ==
  LET v == DescriptorValues(c)
      n == Len(c.xs)
      E == {e \in {{i, j} : i, j \in 0..n-1} : Cardinality(e) = 2 /\ 2 * Apart(c, Min(e) + 1, Max(e) + 1) < c.R}
      S == Flag(0..n-1, E, IF c.top = 0 THEN c.d + 1 ELSE c.top)
      ds == DiagramsOf(InOrder({[s |-> s, w |-> Max({v[i + 1] : i \in s})] : s \in S}), FALSE)
  IN [k \in 1..Len(ds) |->
        [d |-> ds[k].d, pts |-> LET q == NotOnDiagonal(ds[k].pts) IN IF c.finite THEN NotUnpaired(q) ELSE q]]

-----------------------------------------------------------------------------
(* Patches are squares of m times m values, given by the exponents of powers  *)
(* of ten.  The contrast is the sum of squared differences of neighbours; the *)
(* fifth of the patches with the largest contrast remain, and are centred and *)
(* scaled to unit length.                                                     *)
Neighbouring(m) ==
  {<<i, i + 1>> : i \in {k \in 1..m*m : k % m # 0}} \cup {<<i, i + m>> : i \in 1..m*(m-1)}
Contrast(m, q) == LET P == SetToSeq(Neighbouring(m)) IN Sum([k \in 1..Len(P) |-> (q[P[k][1]] - q[P[k][2]]) * (q[P[k][1]] - q[P[k][2]])])
Centred(q) == [k \in 1..Len(q) |-> Len(q) * q[k] - Sum(q)]
KeptPatches(c) ==
  LET n == Len(c.patches)
      norm == [i \in 1..n |-> Contrast(c.m, c.patches[i])]
      least == SortSeq(norm, <)[((4 * n + 4) \div 5) + 1]
  IN SelectSeq([i \in 1..n |-> i], LAMBDA i : norm[i] >= least)
(* v is a sequence of hundredths *)
Direction(v, q) ==
  LET a == Centred(q)
      N == Sum([k \in 1..Len(a) |-> a[k] * a[k]])
  IN /\ Len(v) = Len(q)
     /\ \A k \in 1..Len(v) :
          /\ Magnitude((v[k] * v[k] * N) - (10000 * a[k] * a[k])) <= (Magnitude(v[k]) + 1) * N
          /\ (v[k] > 0 => a[k] > 0) /\ (v[k] < 0 => a[k] < 0)
=============================================================================
