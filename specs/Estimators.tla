----------------------------- MODULE Estimators -----------------------------
(* Estimators that are computed from the distances of points with integral    *)
(* coordinates: correlation integrals, dimension estimates, smoothing, and    *)
(* principal components; algebraic spheres.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Logarithms

RECURSIVE PlusTo(_, _)
PlusTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + PlusTo(s, k - 1)
Plus(s) == PlusTo(s, Len(s))
Abs(i) == IF i < 0 THEN -i ELSE i
Square(i) == i * i
Round(a, b) == IF b < 0 THEN (-2 * a - b) \div (-2 * b) ELSE (2 * a + b) \div (2 * b)

Manhattan(p, q) == Plus([ i \in 1..Len(p) |-> Abs(p[i] - q[i]) ])
SquaredEuclidean(p, q) == Plus([ i \in 1..Len(p) |-> Square(p[i] - q[i]) ])

-----------------------------------------------------------------------------
(* Correlation integral of a sequence of points, given a measure D of their   *)
(* distances: the positive distances in increasing order, with the number of  *)
(* pairs that are not farther apart.                                          *)
PairsOf(P) == { p \in (1..Len(P)) \X (1..Len(P)) : p[1] < p[2] }
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN << >> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o Ascending(S \ {m})
Correlation(P, D(_, _)) ==
  LET xs == Ascending({ D(P[p[1]], P[p[2]]) : p \in PairsOf(P) } \ {0})
  IN [ i \in 1..Len(xs) |-> << xs[i], Cardinality({ p \in PairsOf(P) : D(P[p[1]], P[p[2]]) <= xs[i] }) >> ]
(* Slope of the regression line through points (a, b): numerator, denominator *)
Slope(a, b) ==
  LET n == Len(a) IN
  << n * Plus([ i \in 1..n |-> a[i] * b[i] ]) - Plus(a) * Plus(b), n * Plus([ i \in 1..n |-> a[i] * a[i] ]) - Square(Plus(a)) >>

-----------------------------------------------------------------------------
(* Distances to the i-th point in increasing order, beginning with the point  *)
(* itself                                                                     *)
RECURSIVE Insert(_, _)
Insert(s, x) == IF s = << >> \/ x <= s[1] THEN << x >> \o s ELSE << s[1] >> \o Insert(Tail(s), x)
RECURSIVE SortTo(_, _)
SortTo(s, k) == IF k = 0 THEN << >> ELSE LET r == TLCEval(SortTo(s, k - 1)) IN Insert(r, s[k])
Sort(s) == SortTo(s, Len(s))
Sorted(P, i, D(_, _)) == Sort([ j \in 1..Len(P) |-> D(P[i], P[j]) ])

(* r1 / ((r2 - r1) k) with r1, r2 the mean of the k, k+1 smallest distances:  *)
(* numerator and denominator                                                  *)
Simple(d, k) == << (k + 1) * PlusTo(d, k), k * (k * PlusTo(d, k + 1) - (k + 1) * PlusTo(d, k)) >>

(* Regression over k = kMin..kMax-2; means are multiples of 1/60.             *)
Mean60(d, k) == (60 \div k) * PlusTo(d, k)
Regression(d, kMin, kMax) ==
  IF kMax - 1 <= kMin THEN << 0, 0 >> ELSE
  << Plus([ j \in 1..(kMax - 1 - kMin) |-> LET k == kMin + j - 1 IN (Mean60(d, k + 1) - Mean60(d, k)) * Mean60(d, k) * (60 \div k) ]),
     60 * Plus([ j \in 1..(kMax - 1 - kMin) |-> LET k == kMin + j - 1 IN Square(Mean60(d, k + 1) - Mean60(d, k)) ]) >>

(* Maximum likelihood: for the k-th neighbour, k > 1, the inverse mean of the *)
(* logarithms of its distance divided by those of closer ones; averaged over  *)
(* k = kMin-1 .. kMax-1, in 1/1000.                                           *)
LogSum(d, k) == Plus([ j \in 1..k |-> IF d[j] = 0 \/ d[k + 1] = 0 THEN 0 ELSE Log2(d[k + 1]) - Log2(d[j]) ])
NaturalLog(x) == (x \div 1000) * 693 + ((x \div 1000) * 147 + (x % 1000) * 693) \div 1000
Likelihood(d, kMin, kMax) ==
  LET M(k) == IF k < 2 \/ LogSum(d, k) <= 0 THEN 0 ELSE Round((k - 1) * 100000000, NaturalLog(LogSum(d, k)))
  IN Round(Plus([ j \in 1..(kMax - kMin + 1) |-> M(kMin + j - 2) ]), kMax - kMin + 1)

-----------------------------------------------------------------------------
(* One step of mean-shift smoothing of values v: weights are 1/d^2, or 1 for  *)
(* distance 0, of the k+1 nearest points; distances do not exceed 6.          *)
Weight(d) == IF d = 0 THEN 3600 ELSE 3600 \div (d * d)
Nearest(P, i, k, D(_, _)) ==
  LET s == TLCEval(Sorted(P, i, D)) IN { j \in 1..Len(P) : D(P[i], P[j]) <= s[IF k + 1 > Len(P) THEN Len(P) ELSE k + 1] }
Smooth(P, v, k, D(_, _)) ==
  [ i \in 1..Len(P) |->
      LET N == TLCEval(Nearest(P, i, k, D))
          w == [ j \in 1..Len(P) |-> IF j \in N THEN Weight(D(P[i], P[j])) ELSE 0 ]
      IN Round(Plus([ j \in 1..Len(P) |-> w[j] * v[j] ]), Plus(w)) ]
(* The neighbours are determined. *)
Determined(P, k, D(_, _)) ==
  \A i \in 1..Len(P) : Cardinality(Nearest(P, i, k, D)) = (IF k + 1 > Len(P) THEN Len(P) ELSE k + 1)

-----------------------------------------------------------------------------
(* Scatter matrix times the number n of points *)
Scatter(P) ==
  LET n == Len(P) d == Len(P[1])
      S == [ a \in 1..d |-> Plus([ i \in 1..n |-> P[i][a] ]) ]
  IN TLCEval([ a \in 1..d |-> [ b \in 1..d |-> n * Plus([ i \in 1..n |-> P[i][a] * P[i][b] ]) - S[a] * S[b] ] ])

-----------------------------------------------------------------------------
(* Algebraic spheres a + b x + s |x|^2 = 0: 4 s^2 r^2 *)
Discriminant(u) ==
  LET n == Len(u) IN Plus([ i \in 1..(n - 2) |-> Square(u[i + 1]) ]) - 4 * u[1] * u[n]
=============================================================================
