------------------------- MODULE Trace_CloudPrograms -------------------------
(* Validates recorded runs of programs for point clouds.                     *)
EXTENDS CloudPrograms, FunctionalTrace

Same(q, r) == BagOf(q) = BagOf(r)

DistributionOK(c, r) ==
  /\ r.dist = SquaredDistances(c)
  /\ IF c.R = 0 THEN r.deg = <<>> /\ r.wdeg = <<>>
     ELSE /\ r.deg = Degrees(c)
          /\ Len(r.wdeg) = Len(c.pts)
          /\ (c.metric = "manhattan" \/ Len(c.pts[1]) = 1) => r.wdeg = [i \in 1..Len(c.pts) |-> 100 * WeightedDegrees(c)[i]]

DescriptorOK(c, r) ==
  LET ds == DescriptorDiagrams(c) IN
  /\ (c.norm => c.scale = IF RangeOf(c) = 0 THEN IF c.desc = "eccentricity" /\ c.p = 0 THEN 1 ELSE Len(c.xs) ELSE RangeOf(c))
  /\ Len(r.diagrams) = Len(ds)
  /\ \A k \in 1..Len(ds) :
       LET x == r.diagrams[k]  q == ds[k].pts IN
       /\ x.d = ds[k].d /\ x.name /\ x.size = Len(q) /\ Same(x.pts, q)
       /\ x.betti = Cardinality({j \in 1..Len(q) : Unpaired(q[j])})

SpinesOK(c, r) ==
  LET C == Content(r.K) IN
  /\ IsCech(c.pts, c.R, 0, C)
  /\ Closed(C) => IsSpine(C, Content(r.spine))

PatchesOK(c, r) ==
  LET q == KeptPatches(c) IN
  /\ Len(r.rows) = Len(q)
  /\ \A k \in 1..Len(q) : Direction(r.rows[k], c.patches[q[k]])

(* a/b, in 1/1000; printed with six digits *)
IsQuotient(v, a, b) ==
  LET x == IF b < 0 THEN Es!Round(-1000 * a, -b) ELSE Es!Round(1000 * a, b) IN Magnitude(v - x) <= 1 + (Magnitude(x) \div 100000)
EstimateOK(c, v, i) ==
  LET d == TLCEval(Es!Sorted(c.pts, i, Es!Manhattan)) IN
  CASE c.method = "nn" /\ c.K = 0 -> LET r == Es!Simple(d, c.n) IN r[2] # 0 => IsQuotient(v, r[1], r[2])
    [] c.method = "nn" -> LET r == Es!Regression(d, c.n, c.K) IN r[2] # 0 => IsQuotient(v, r[1] \div 10, r[2] \div 10)
    [] c.method = "mle" -> LET r == Es!Likelihood(d, c.n, c.K) IN Magnitude(v - r) <= 3 + r \div 1000
    [] OTHER -> v = 1000
DimensionsOK(c, r) ==
  LET n == Len(c.pts) IN
  /\ Len(r.plain) = n
  /\ \A i \in 1..n : EstimateOK(c, r.plain[i], i)
  /\ IF ~c.smooth THEN r.smooth = <<>>
     ELSE /\ Len(r.smooth) = n
          /\ (Es!Determined(c.pts, c.n, Es!Manhattan) /\ \A i \in 1..n : Magnitude(r.plain[i]) < 20000) =>
               LET s == FoldLeft(LAMBDA v, t : TLCEval(Es!Smooth(c.pts, v, c.n, Es!Manhattan)), r.plain, [t \in 1..c.times |-> t]) IN
               \A i \in 1..n : Magnitude(r.smooth[i] - s[i]) <= 2 + c.times

AcceptCloudPrograms(e) ==
  LET c == e.in
      r == e.out
  IN /\ r.rc = 0
     /\ CASE c.k = "distribution" -> DistributionOK(c, r)
          [] c.k = "descriptor"   -> DescriptorOK(c, r)
          [] c.k = "spines"       -> SpinesOK(c, r)
          [] c.k = "patches"      -> PatchesOK(c, r)
          [] c.k = "dimensions"   -> DimensionsOK(c, r)
=============================================================================
