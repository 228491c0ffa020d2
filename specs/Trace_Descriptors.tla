-------------------------- MODULE Trace_Descriptors --------------------------
EXTENDS PointCloud, FunctionalTrace

(* in: P (points), m (metric), order, k. Results are reported as integers:  *)
(* ecc is n times the order-th power of the eccentricity (order 0: the      *)
(* eccentricity), or its square for order 0 and the Euclidean distance; dtm *)
(* is the negated density times n (Manhattan distance, or one dimension).   *)
(* gauss: truncated Gaussian density of the points in units of 1/4 for      *)
(* bandwidth one; wide: for the points themselves and bandwidth k.          *)
AcceptDescriptors(e) ==
  LET P == e.in.P
      n == Len(P)
      M == TLCEval([ i \in 1..n |-> [ j \in 1..n |-> Manhattan(P[i], P[j]) ] ])
      Q == TLCEval([ i \in 1..n |-> [ j \in 1..n |-> Square(P[i], P[j]) ] ])
      D == IF e.in.m = "euclidean" THEN Q ELSE M
      o == e.in.order
  IN /\ Len(e.out.lens) = n /\ Len(e.out.ecc) = n /\ Len(e.out.dtm) = n /\ Len(e.out.gauss) = n /\ Len(e.out.wide) = n
     /\ \A i \in 1..n :
          /\ e.out.lens[i] = LensDepth(D, n, i)
          /\ e.out.ecc[i] = (IF n = 1 THEN 0
                             ELSE IF o = 0 THEN Eccentricity0(D, n, i)
                             ELSE IF e.in.m = "euclidean" THEN EccentricitySum(D, n, i, o \div 2)
                             ELSE EccentricitySum(D, n, i, o))
          /\ LET g == e.out.gauss[i] - TruncatedSum(Q, n, i) IN -n <= g /\ g <= n
          /\ LET lo == 1000000 * Within(Q, n, i, 0)  hi == 1000000 * Within(Q, n, i, e.in.k)
                 x == e.out.wide[i]
             IN IF lo = hi THEN x - lo \in -1..1 ELSE lo < x /\ x < hi
          /\ e.out.dtm[i] = (IF e.in.m = "euclidean" /\ e.in.d > 1 THEN 0 ELSE NearestSum(M, n, i, e.in.k))
=============================================================================
