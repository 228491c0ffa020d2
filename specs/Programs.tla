------------------------------ MODULE Programs ------------------------------
(* Programs that exchange persistence diagrams through files.  A directory   *)
(* maps names to diagrams; a name [b, s, d] stands for the file b_sd.txt if  *)
(* s is one of "d" and "k", and for b.txt if s is empty.  A program reads     *)
(* some files, prints a report and possibly writes further files.            *)
EXTENDS Rips, Persistence

Mt == INSTANCE Matching

Cells    == 40                       \* cell c lies between c - 1 and c
Forever  == 2000000000
NoFiles  == [x \in {} |-> <<>>]
Dimension(n) == IF n.s = "" THEN 0 ELSE n.d
Sum(q)   == FoldLeft(LAMBDA a, x : a + x, 0, q)
Unpaired(p) == p[2] = Forever

(* Graphs: the complex is filtered by the largest degree of a vertex *)
DegreeIn(E, v) == Cardinality({e \in E : v \in e})
DegreeItems(E, dim, zero) ==
  LET V == UNION E
      S == IF dim >= 1 THEN Flag(V, E, dim) ELSE {{v} : v \in V} \cup E
  IN {[s |-> s, w |-> IF zero /\ Dim(s) = 0 THEN 0 ELSE Max({DegreeIn(E, v) : v \in s})] : s \in S}
Earlier(x, y) ==
  x.w < y.w \/ (x.w = y.w /\ (Dim(x.s) < Dim(y.s) \/ (Dim(x.s) = Dim(y.s) /\ x.s # y.s /\ Max(SymDiff(x.s, y.s)) \in y.s)))
InOrder(I) == SetToSortSeq(I, Earlier)

(* Diagrams of a filtered complex, one for each dimension; all tells whether *)
(* cycles of the highest dimension are reported.                              *)
DiagramsOf(C, all) ==
  LET F == [k \in 1..Len(C) |-> C[k].s]
      W == [k \in 1..Len(C) |-> C[k].w]
      pr == Pairing(F)
      ds == SetToSortSeq(DiagramDimensions(F, pr, all), <)
      pts(d) == LET a == SetToSeq({p \in pr.pairs : Dim(F[p[1]]) = d})
                    b == SetToSeq({i \in ReportedCreators(F, pr, all) : Dim(F[i]) = d})
                IN [k \in 1..Len(a) |-> <<W[a[k][1]], W[a[k][2]]>>] \o [k \in 1..Len(b) |-> <<W[b[k]], Forever>>]
  IN [k \in 1..Len(ds) |-> [d |-> ds[k], pts |-> pts(ds[k])]]

NotOnDiagonal(q) == SelectSeq(q, LAMBDA p : p[1] # p[2])
NotUnpaired(q)   == SelectSeq(q, LAMBDA p : ~Unpaired(p))
Capped(q, y)     == [k \in 1..Len(q) |-> IF Unpaired(q[k]) THEN <<q[k][1], y>> ELSE q[k]]
GraphFiles(op) ==
  LET E == {SetOf(op.edges[k]) : k \in 1..Len(op.edges)}
      top == Max({DegreeIn(E, v) : v \in UNION E})
      ds == DiagramsOf(InOrder(DegreeItems(E, op.dim, op.zero)), op.loops)
  IN [k \in 1..Len(ds) |-> [d |-> ds[k].d,
        pts |-> Capped(IF ds[k].d = 0 THEN NotOnDiagonal(ds[k].pts) ELSE ds[k].pts, op.inf * top)]]

(* Functions on the vertices of a path, in the order of their values.        *)
(* Descending orders are those of the negated function.                       *)
PathItems(f) ==
  {[s |-> {v - 1}, w |-> f[v]] : v \in 1..Len(f)} \cup
  {[s |-> {v - 1, v}, w |-> IF f[v] > f[v+1] THEN f[v] ELSE f[v+1]] : v \in 1..Len(f)-1}
Rising(f) == Capped(DiagramsOf(InOrder(PathItems(f)), FALSE)[1].pts, Max(SetOf(f)))
FunctionPoints(f, descending) ==
  IF ~descending THEN Rising(f)
  ELSE LET q == Rising([v \in 1..Len(f) |-> -f[v]]) IN [k \in 1..Len(q) |-> <<-q[k][1], -q[k][2]>>]

(* Statistics *)
Magnitude(x) == IF x < 0 THEN -x ELSE x
Persistences(q) == [k \in 1..Len(q) |-> Magnitude(q[k][2] - q[k][1])]
Ignoring(q, x) == SelectSeq(q, LAMBDA p : p[1] # x /\ p[2] # x)
TotalOf(q, p) == Sum([k \in 1..Len(q) |-> IF p = 1 THEN Persistences(q)[k] ELSE Persistences(q)[k] * Persistences(q)[k]])
LargestOf(q) == IF q = <<>> THEN 0 ELSE Max(SetOf(Persistences(q)))

(* Signatures: how far pairs of points are from each other and the diagonal *)
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b)  == IF a > b THEN a ELSE b
LongOnes(q, t) == IF t = 0 THEN q ELSE SelectSeq(q, LAMBDA p : Unpaired(p) \/ Magnitude(p[2] - p[1]) >= t)
PersistenceOf(p) == IF Unpaired(p) THEN Forever ELSE Magnitude(p[2] - p[1])
Signature(q) ==
  LET I == SetToSeq({<<i, j>> \in (1..Len(q)) \X (1..Len(q)) : i < j})
      v(i, j) == Least(IF Unpaired(q[i]) \/ Unpaired(q[j]) THEN Forever
                       ELSE Most(Magnitude(q[i][1] - q[j][1]), Magnitude(q[i][2] - q[j][2])),
                       Least(PersistenceOf(q[i]), PersistenceOf(q[j])))
  IN SortSeq([k \in 1..Len(I) |-> v(I[k][1], I[k][2])], LAMBDA a, b : a > b)
Resized(q, n) == IF n = 0 THEN q ELSE [k \in 1..n |-> IF k <= Len(q) THEN q[k] ELSE 0]
SpanOf(q) ==
  LET c == UNION {{q[k][1], q[k][2]} : k \in 1..Len(q)} IN
  IF c = {} \/ Max(c) = Min(c) THEN 1 ELSE Max(c) - Min(c)

(* Indicator functions: how many intervals contain a cell *)
Counts(q) ==
  [c \in 1..Cells |-> Cardinality({k \in 1..Len(q) : ~Unpaired(q[k]) /\
      Least(q[k][1], q[k][2]) <= c - 1 /\ c <= Most(q[k][1], q[k][2])})]
Highest(f) == Max({f[c] : c \in 1..Cells})

(* Distances: the files are grouped by their base names *)
KeyOf(n) == IF n.s = "" THEN <<n.b>> ELSE <<n.b, "">>
Groups(names) ==
  FoldLeft(LAMBDA acc, n : IF \E k \in 1..Len(acc) : acc[k] = KeyOf(n) THEN acc ELSE Append(acc, KeyOf(n)), <<>>, names)
Cleaned(q, o) ==
  LET a == IF o.clean THEN NotUnpaired(NotOnDiagonal(q)) ELSE q
      b == IF o.unique THEN SetToSeq(SetOf(a)) ELSE a
  IN IF o.factor = 0 \/ b = <<>> THEN b
     ELSE Capped(b, o.factor * Max({b[k][1] : k \in 1..Len(b)} \cup {b[k][2] : k \in {j \in 1..Len(b) : ~Unpaired(b[j])}}))
MemberOf(dir, names, key, d, o) ==
  LET I == {k \in 1..Len(names) : KeyOf(names[k]) = key /\ Dimension(names[k]) = d} IN
  IF I = {} THEN <<>> ELSE Cleaned(dir[names[Min(I)]], o)
Twice(q) == [k \in 1..Len(q) |-> <<2 * q[k][1], 2 * q[k][2]>>]
(* For diagrams A and B: the amount by which they contribute to the distance *)
Amount(A, B, o) ==
  CASE o.by = "hausdorff" ->
         LET h == Mt!Hausdorff(A, B) IN IF h >= Forever THEN Forever ELSE IF o.p = 1 THEN h ELSE h * h
    [] o.by = "wasserstein" -> Mt!WassersteinPower(Twice(A), Twice(B), o.p)
    [] o.by = "indicator" ->
         LET f == Counts(A)  g == Counts(B) IN
         Sum([c \in 1..Cells |-> IF o.p = 1 THEN Magnitude(f[c] - g[c]) ELSE (f[c] - g[c]) * (f[c] - g[c])])
SaturatedSum(q) == IF \E k \in 1..Len(q) : q[k] >= Forever THEN Forever ELSE Sum(q)
Contributions(dir, o, a, b) ==
  LET D == {Dimension(o.files[k]) : k \in 1..Len(o.files)}
      lo == Min(D)
  IN [k \in 1..Max(D) - lo + 1 |-> Amount(MemberOf(dir, o.files, a, lo + k - 1, o), MemberOf(dir, o.files, b, lo + k - 1, o), o)]
Distance(dir, o, a, b) == SaturatedSum(Contributions(dir, o, a, b))
=============================================================================
