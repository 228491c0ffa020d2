--------------------------- MODULE Trace_Estimators ---------------------------
EXTENDS Estimators, FunctionalTrace

(* a/b, in 1/1000 *)
IsRatio(v, a, b) ==
  LET c == IF b < 0 THEN -a ELSE a
      d == Abs(b)
  IN Abs(v - 1000 * (c \div d) - (IF d < 1000000 THEN Round(1000 * (c % d), d) ELSE Round(c % d, d \div 1000))) <= 2

AcceptEstimate(e) ==
  LET in == e.in out == e.out IN
  CASE in.k = "correlation" ->
         (* distances, or squared ones; counts *)
         LET c == TLCEval(IF in.distance = "manhattan" THEN Correlation(in.P, Manhattan) ELSE Correlation(in.P, SquaredEuclidean))
         IN out.x = [ i \in 1..Len(c) |-> c[i][1] ] /\ out.y = [ i \in 1..Len(c) |-> c[i][2] ]
    [] in.k = "slope" ->
         IF Len(in.a) # Len(in.b) THEN out.error
         ELSE LET s == Slope(in.a, in.b) IN ~out.error /\ (s[2] # 0 => IsRatio(out.v, s[1], s[2]))
    [] in.k = "simple" ->
         /\ Len(out.v) = Len(in.P)
         /\ \A i \in 1..Len(in.P) : LET r == Simple(TLCEval(Sorted(in.P, i, Manhattan)), in.n) IN r[2] # 0 => IsRatio(out.v[i], r[1], r[2])
    [] in.k = "regression" ->
         LET lo == IF in.n <= in.m THEN in.n ELSE in.m
             hi == IF in.n <= in.m THEN in.m ELSE in.n
         IN IF lo = 0 THEN out.error
            ELSE /\ ~out.error /\ Len(out.v) = Len(in.P)
                 /\ \A i \in 1..Len(in.P) : LET r == Regression(TLCEval(Sorted(in.P, i, Manhattan)), lo, hi) IN r[2] # 0 => IsRatio(out.v[i], r[1], r[2])
    [] in.k = "likelihood" ->
         LET lo == IF in.n <= in.m THEN in.n ELSE in.m
             hi == IF in.n <= in.m THEN in.m ELSE in.n
         IN IF lo = 0 THEN out.error
            ELSE /\ ~out.error /\ Len(out.v) = Len(in.P)
                 /\ \A i \in 1..Len(in.P) : LET r == Likelihood(TLCEval(Sorted(in.P, i, Manhattan)), lo, hi) IN Abs(out.v[i] - r) <= 3 + r \div 1000
    [] in.k = "smooth" ->
         (* results of one and two steps, in 1/1000 *)
         Determined(in.P, in.n, Manhattan) =>
           /\ Len(out.one) = Len(in.P) /\ Len(out.two) = Len(in.P)
           /\ LET s == TLCEval(Smooth(in.P, [ i \in 1..Len(in.P) |-> 1000 * in.v[i] ], in.n, Manhattan))
                  t == TLCEval(Smooth(in.P, out.one, in.n, Manhattan))
              IN \A i \in 1..Len(in.P) : Abs(out.one[i] - s[i]) <= 1 /\ Abs(out.two[i] - t[i]) <= 2
    [] in.k = "components" ->
         (* components in 1/1000, squared singular values s in 1/1000: their   *)
         (* weighted outer products are proportional to the scatter matrix.    *)
         LET d == Len(in.P[1])
             r == IF Len(in.P) < d THEN Len(in.P) ELSE d
             S == TLCEval(Scatter(in.P))
             V == out.components
             total == Plus(out.s)
             trace == Plus([ a \in 1..d |-> S[a][a] ])
             Outer(a, b) == Plus([ i \in 1..r |-> Round(Round(out.s[i] * V[i][a], 1000) * V[i][b], 1000) ])
         IN /\ Len(V) = r /\ Len(out.s) = r
            /\ \A i \in 1..r : Len(V[i]) = d
            /\ \A i, j \in 1..r : Abs(Plus([ a \in 1..d |-> V[i][a] * V[j][a] ]) - (IF i = j THEN 1000000 ELSE 0)) <= 4000
            /\ \A i \in 1..r - 1 : out.s[i] >= out.s[i + 1]
            /\ (trace = 0 => total <= 1)
            /\ (trace # 0 => total > 0 /\ \A a, b \in 1..d : Abs(Outer(a, b) - Round(total * S[a][b], trace)) <= 8 + total \div 100)
    [] in.k = "gap" ->
         (* all points are neighbours; the points are +- in.axes[i] times the  *)
         (* i-th unit vector, so the largest gap between the sorted lengths    *)
         (* determines the dimension.                                          *)
         LET a == Sort(in.axes)
             d == Len(a)
             Gap(i) == a[d + 1 - i] - a[d - i]
         IN /\ Len(out.v) = 2 * d
            /\ \A i \in 1..2 * d : out.v[i] \in 1..d - 1 /\ \A j \in 1..d - 1 : Gap(out.v[i]) >= Gap(j)
    [] in.k = "line" ->
         Len(out.v) = Len(in.P) /\ \A i \in 1..Len(out.v) : out.v[i] = 1
    [] in.k = "sphere" ->
         (* centre and curvatures in 1/1000, 1/100000; radius times |2s| in    *)
         (* 1/1000                                                             *)
         LET u == in.u
             s == u[Len(u)]
             N == Discriminant(u)
         IN /\ Len(out.centre) = Len(u) - 2
            /\ \A i \in 1..Len(out.centre) : Abs(out.centre[i] - Round(-1000 * u[i + 1], 2 * s)) <= 1
            /\ (IF N > 0
                THEN /\ Abs(out.radius * out.radius - N * 1000000) <= 2 * out.radius + 1
                     /\ Abs(out.gauss * N - 4 * s * s * 100000) <= N
                     /\ Abs(out.mean * out.radius - 2 * Abs(s) * 100000000) <= out.radius + out.mean
                ELSE out.gauss = 0 /\ out.mean = 0)
    [] in.k = "curvature" ->
         (* points on a sphere of radius in.r / 4 have curvature 4 / in.r *)
         Len(out.v) = in.points /\ \A i \in 1..Len(out.v) : Abs(out.v[i] * in.r - 4000) <= 4 * in.r
=============================================================================
