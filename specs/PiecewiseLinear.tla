--------------------------- MODULE PiecewiseLinear ---------------------------
(* Continuous piecewise linear functions, given by their values at the grid  *)
(* points 0..Points.  Nodes lie on grid points.                              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANT Points

AbsOf(x) == IF x < 0 THEN -x ELSE x
Xs == 0..Points
(* N: sequence of nodes <<x, y>> with distinct x.  Values are multiplied by  *)
(* scale.                                                                    *)
LeftOf(N, x)  == CHOOSE k \in 1..Len(N) : N[k][1] <= x /\ \A l \in 1..Len(N) : N[l][1] <= x => N[l][1] <= N[k][1]
RightOf(N, x) == CHOOSE k \in 1..Len(N) : N[k][1] >= x /\ \A l \in 1..Len(N) : N[l][1] >= x => N[l][1] >= N[k][1]
LowEnd(N)  == IF N = <<>> THEN 1 ELSE Min({N[k][1] : k \in 1..Len(N)})
HighEnd(N) == IF N = <<>> THEN 0 ELSE Max({N[k][1] : k \in 1..Len(N)})
Interpolate(N, scale) == [x \in Xs |->
  IF x < LowEnd(N) \/ x > HighEnd(N) THEN 0
  ELSE LET a == N[LeftOf(N, x)]  b == N[RightOf(N, x)] IN
       IF a[1] = b[1] THEN a[2] * scale
       ELSE ((a[2] * (b[1] - x) + b[2] * (x - a[1])) * scale) \div (b[1] - a[1])]

SameSign(a, b) == (a >= 0 /\ b >= 0) \/ (a <= 0 /\ b <= 0)
(* Integrals over a cell on which the function is linear from a to b, times  *)
(* 16 (absolute value), 3 (square), 4 (absolute value of the cube), rounded  *)
Cell1(a, b) == IF SameSign(a, b) THEN 8 * (AbsOf(a) + AbsOf(b))
               ELSE (8 * (a*a + b*b)) \div (AbsOf(a) + AbsOf(b))
Cell2(a, b) == a*a + a*b + b*b
Cell3(a, b) == LET p == AbsOf(a)  q == AbsOf(b) IN
  IF SameSign(a, b) THEN p*p*p + p*p*q + p*q*q + q*q*q ELSE (a*a*a*a + b*b*b*b) \div (p + q)
SumCells(v, lo, hi, cell(_, _)) ==
  FoldLeft(LAMBDA s, x : s + cell(v[x], v[x+1]), 0, [k \in 1..(IF hi > lo THEN hi - lo ELSE 0) |-> lo + k - 1])
=============================================================================
