---------------------------- MODULE Trace_Kernels ----------------------------
EXTENDS Kernels, FunctionalTrace

AcceptKernel(e) ==
  LET in == e.in out == e.out IN
  CASE in.k = "multi" ->
         /\ Abs(out.kernel - MultiScale(in.D, in.E, 1)) <= 2 + Len(in.D) * Len(in.E)
         /\ Abs(out.feature - MultiScale(in.D, in.D, 2)) <= 2 + Len(in.D) * Len(in.D)
         /\ (IF SameMultiset(in.D, in.E) THEN out.metric \in 0..1 ELSE IsRoot(out.metric, MultiScaleSquare(in.D, in.E)))
    [] in.k = "linear" ->
         LET X == LinearSquare(in.D, in.E) IN
         /\ out.kernel = Linear(in.D, in.E)
         /\ out.square = X
         /\ Abs(in.t * out.gauss - 1000 * X) <= in.t
    [] in.k = "default" ->
         (* weights are 1/2 *)
         /\ Abs(4 * out.kernel - Gauss(in.D, in.E)) <= 4 + Len(in.D) * Len(in.E)
         /\ (IF SameMultiset(in.D, in.E) THEN out.gauss \in -1..1
             ELSE Abs(4 * in.t * out.gauss - GaussSquare(in.D, in.E)) <= 8 * in.t + (Len(in.D) + Len(in.E)) * (Len(in.D) + Len(in.E)))
    [] in.k = "epanechnikov" ->
         (* data and position in quarters of the bandwidth h; value times 64 n h^d *)
         out.v = Epanechnikov(in.x, in.at)
    [] in.k = "gauss" ->
         Abs(out.v - GaussDensity(in.x, in.at)) <= 1 + Len(in.x)
=============================================================================
