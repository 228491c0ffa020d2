------------------------------- MODULE Samples -------------------------------
(* Random graphs, and samples from spheres and tori.  Random outcomes are     *)
(* constrained by what holds for every outcome, and by counts that leave the  *)
(* stated interval with a probability below 10^-11.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(i) == IF i < 0 THEN -i ELSE i
Square(i) == i * i
RECURSIVE PlusTo(_, _)
PlusTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + PlusTo(s, k - 1)
Plus(s) == PlusTo(s, Len(s))
Root(x) == CHOOSE r \in 0..(x + 1) : r * r >= x /\ (r = 0 \/ (r - 1) * (r - 1) < x)

(* Simplices are records [s |-> vertices, w |-> weight] *)
Vertices(K) == SelectSeq(K, LAMBDA x : Len(x.s) = 1)
Edges(K) == SelectSeq(K, LAMBDA x : Len(x.s) = 2)
Elements(s) == { s[i] : i \in 1..Len(s) }
Pairs(n) == (n * (n - 1)) \div 2
IsGraph(K, n) ==
  /\ Len(Vertices(K)) + Len(Edges(K)) = Len(K)
  /\ Len(Vertices(K)) = n
  /\ { Vertices(K)[i].s[1] : i \in 1..Len(Vertices(K)) } = 0..(n - 1)
  /\ Cardinality({ Elements(Edges(K)[i].s) : i \in 1..Len(Edges(K)) }) = Len(Edges(K))
  /\ \A i \in 1..Len(Edges(K)) : Cardinality(Elements(Edges(K)[i].s)) = 2 /\ Elements(Edges(K)[i].s) \subseteq 0..(n - 1)
Sorted(K) == \A i \in 1..Len(K) - 1 : K[i].w <= K[i + 1].w

(* Observed count of events with probability p/q in n trials: at most seven   *)
(* and a half standard deviations away from its mean.                         *)
Plausible(count, n, p, q) == Abs(q * count - n * p) <= 40000 /\ Square(q * count - n * p) <= 57 * n * p * (q - p) + q * q
(* Sum of n geometric variables with success probability p/q: mean p/(q-p),   *)
(* variance pq/(q-p)^2, with heavier tails                                    *)
PlausibleSum(sum, n, p, q) == Abs((q - p) * sum - n * p) <= 40000 /\ Square((q - p) * sum - n * p) <= 100 * n * p * q + q * q

(* Cosines and sines of k pi/12, times 10000 *)
Cosines == << 10000, 9659, 8660, 7071, 5000, 2588, 0, -2588, -5000, -7071, -8660, -9659,
              -10000, -9659, -8660, -7071, -5000, -2588, 0, 2588, 5000, 7071, 8660, 9659 >>
Cos(k) == Cosines[(k % 24) + 1]
Sin(k) == Cos(k + 18)
Scaled(a, b) == (a * b + 5000) \div 10000
(* Points of spheres and tori, times 10000 *)
SpherePoint(theta, phi, r, c) ==
  << 10000 * c[1] + r * Scaled(Cos(theta), Sin(phi)), 10000 * c[2] + r * Scaled(Sin(theta), Sin(phi)), 10000 * c[3] + r * Cos(phi) >>
TorusPoint(theta, psi, R, r) ==
  << R * Cos(psi) + r * Scaled(Cos(theta), Cos(psi)), R * Sin(psi) + r * Scaled(Cos(theta), Sin(psi)), r * Sin(theta) >>
=============================================================================
