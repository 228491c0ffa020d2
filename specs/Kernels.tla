------------------------------- MODULE Kernels -------------------------------
(* Kernels between persistence diagrams, and kernel density estimates.  The   *)
(* coordinates are integral multiples of a unit that turns every Gaussian     *)
(* into a power of two: a squared distance of k units becomes 2^-k.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Unit == 1048576
Power(k) == IF k > 20 THEN 0 ELSE Unit \div 2 ^ k

RECURSIVE Plus(_)
Plus(s) == IF s = << >> THEN 0 ELSE s[1] + Plus(Tail(s))
Abs(i) == IF i < 0 THEN -i ELSE i
Square(i) == i * i
SquaredLength(p, q) == Square(p[1] - q[1]) + Square(p[2] - q[2])
Mirror(p) == << p[2], p[1] >>

(* Sums over pairs of points *)
SumPairs(D, E, F(_, _)) == Plus([ i \in 1..Len(D) |-> Plus([ j \in 1..Len(E) |-> F(D[i], E[j]) ]) ])

(* Multi-scale kernel, times 8 pi sigma Unit; f = 2 for the feature map *)
MultiScale(D, E, f) ==
  LET F(p, q) == Power(f * SquaredLength(p, q)) - Power(f * SquaredLength(p, Mirror(q)))
  IN SumPairs(D, E, F)
Gauss(D, E) == LET F(p, q) == Power(SquaredLength(p, q)) IN SumPairs(D, E, F)
(* A kernel with integral values: weights are persistences *)
Life(p) == p[2] - p[1]
Linear(D, E) ==
  LET F(p, q) == Life(p) * Life(q) * (1 + p[1] * q[1] + p[2] * q[2]) IN SumPairs(D, E, F)

(* Squared distances in feature space *)
MultiScaleSquare(D, E) == MultiScale(D, D, 1) + MultiScale(E, E, 1) - 2 * MultiScale(D, E, 1)
GaussSquare(D, E) == Gauss(D, D) + Gauss(E, E) - 2 * Gauss(D, E)
LinearSquare(D, E) == Linear(D, D) + Linear(E, E) - 2 * Linear(D, E)

SameMultiset(s, t) == /\ Len(s) = Len(t)
                      /\ \A i \in 1..Len(s) : Cardinality({ j \in 1..Len(s) : s[j] = s[i] }) = Cardinality({ j \in 1..Len(t) : t[j] = s[i] })

(* m is a thousand times the root of X / Unit *)
IsRoot(m, X) ==
  LET Y == ((X \div 1024) * 15625) \div 16 IN m >= 0 /\ Abs(m * m - Y) <= 2 * m + 2000

(* Density estimates: data and position are multiples of a quarter of the     *)
(* bandwidth for the Epanechnikov kernel; the value is in 1/64 per n.         *)
Epanechnikov(data, x) ==
  Plus([ i \in 1..Len(data) |-> LET u == data[i] - x IN IF Abs(u) <= 4 THEN 3 * (16 - u * u) ELSE 0 ])
GaussDensity(data, x) == Plus([ i \in 1..Len(data) |-> Power(Square(data[i] - x)) ])
=============================================================================
