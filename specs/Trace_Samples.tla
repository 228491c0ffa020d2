---------------------------- MODULE Trace_Samples ----------------------------
EXTENDS Samples, FunctionalTrace

Near(a, b, d) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : Abs(a[i] - b[i]) <= d
AcceptSample(e) ==
  LET in == e.in out == e.out IN
  CASE in.k = "sphere" ->
         /\ Len(out.p) = Len(in.angles)
         /\ \A i \in 1..Len(in.angles) : Near(out.p[i], SpherePoint(in.angles[i][1], in.angles[i][2], in.r, in.c), 2 * in.r + 1)
    [] in.k = "torus" ->
         /\ Len(out.p) = Len(in.angles)
         /\ \A i \in 1..Len(in.angles) : Near(out.p[i], TorusPoint(in.angles[i][1], in.angles[i][2], in.R, in.r), in.R + 2 * in.r + 1)
    [] in.k = "sampleSphere" ->
         (* range of the angles; points per region: polar caps |z| > r/2 have  *)
         (* half of the area, quadrants a quarter each                         *)
         /\ out.n = in.n /\ out.inRange
         /\ Plausible(out.caps, in.n, 1, 2) /\ Plausible(out.north, in.n, 1, 2)
         /\ Len(out.quadrants) = 4 /\ Plus(out.quadrants) = in.n
         /\ \A i \in 1..4 : Plausible(out.quadrants[i], in.n, 1, 4)
    [] in.k = "sampleTorus" ->
         (* the outer half has a share of 1/2 + r/(R pi), in percent: in.outer   *)
         /\ out.n = in.n /\ out.inRange
         /\ Abs(in.outer - (50 + (in.r * 31831) \div (1000 * in.R))) <= 1
         /\ Plausible(out.outer, in.n, in.outer, 100)
         /\ Plausible(out.top, in.n, 1, 2)
         /\ Len(out.quadrants) = 4 /\ Plus(out.quadrants) = in.n
         /\ \A i \in 1..4 : Plausible(out.quadrants[i], in.n, 1, 4)
    [] in.k = "graph" ->
         (* probability p/q *)
         /\ IsGraph(out.K, in.n)
         /\ (in.p = 0 => Edges(out.K) = << >>)
         /\ (in.p = in.q => Len(Edges(out.K)) = Pairs(in.n))
         /\ Plausible(Len(Edges(out.K)), Pairs(in.n), in.p, in.q)
         /\ \A i \in 1..Len(out.K) : out.K[i].w = 0
    [] in.k = "weighted" ->
         LET E == Edges(out.K) IN
         /\ IsGraph(out.K, in.n)
         /\ \A i \in 1..Len(E) : E[i].w >= 1
         /\ \A i \in 1..Len(out.K) : Len(out.K[i].s) = 1 => out.K[i].w = 0
         /\ Sorted(out.K)
         /\ (in.p = 0 => E = << >>)
         /\ Plausible(Len(E), Pairs(in.n), in.p, in.q)
         /\ PlausibleSum(Plus([ i \in 1..Len(E) |-> E[i].w ]), Pairs(in.n), in.p, in.q)
=============================================================================
