----------------------------- MODULE Statistics -----------------------------
(* Statistics of samples of integers, as exact fractions.  A result that is  *)
(* read off the library is an integer: the value times a scale.              *)
EXTENDS Integers, Sequences, FiniteSets, Big, TLC

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = << >> THEN 0 ELSE s[1] + SumSeq(Tail(s))
AbsInt(i) == IF i < 0 THEN -i ELSE i

(* Deviations from the mean, times the size of the sample *)
Deviations(x) == LET n == Len(x) S == SumSeq(x) IN TLCEval([ i \in 1..n |-> n * x[i] - S ])
Products(x, y) == TLCEval([ i \in 1..Len(x) |-> x[i] * y[i] ])
Powers(x, k) == TLCEval([ i \in 1..Len(x) |-> x[i] ^ k ])

RECURSIVE FourthPowers(_)
FourthPowers(d) == IF d = << >> THEN << >>
                   ELSE LET q == ToBig(d[1] * d[1]) IN BigAdd(BigMul(q, q), FourthPowers(Tail(d)))

NotANumber == 2000000001

(* s is N / D times the scale, up to one unit *)
IsFraction(s, scale, N, D) == s # NotANumber /\ AbsInt(s * D - scale * N) <= D

(* Every statistic: the value r for the sample x is right. *)
IsMean(x, r, scale) == IF x = << >> THEN r = NotANumber ELSE IsFraction(r, scale, SumSeq(x), Len(x))

(* n^2 (n - 1) times the covariance, divided by n *)
CovarianceNumerator(x, y) == SumSeq(Products(Deviations(x), Deviations(y))) \div Len(x)
IsCovariance(x, y, r, scale) ==
  IF Len(x) <= 1 \/ Len(y) <= 1 THEN r = NotANumber
  ELSE LET n == Len(x) IN IsFraction(r, scale, CovarianceNumerator(x, y), n * (n - 1))
IsVariance(x, r, scale) == IsCovariance(x, x, r, scale)

IsDeviation(x, r, scale) ==
  IF Len(x) <= 1 THEN r = NotANumber
  ELSE LET n == Len(x)
           target == BigProduct(<< scale, scale, CovarianceNumerator(x, x) >>)
       IN /\ r # NotANumber /\ r >= 0
          /\ (r >= 1 => BigLeq(BigProduct(<< r - 1, r - 1, n, n - 1 >>), target))
          /\ BigLeq(target, BigProduct(<< r + 1, r + 1, n, n - 1 >>))

(* Third and fourth standardised moments *)
IsSkewness(x, r, scale) ==
  LET n == Len(x)
      d == Deviations(x)
      d2 == SumSeq(Powers(d, 2))
      d3 == SumSeq(Powers(d, 3))
      a == AbsInt(r)
      target == BigProduct(<< scale, scale, n, AbsInt(d3), AbsInt(d3) >>)
  IN IF n = 0 \/ d2 = 0 THEN r = NotANumber
     ELSE /\ r # NotANumber
          /\ (a > 1 => (r > 0) = (d3 > 0))
          /\ (a >= 1 => BigLeq(BigProduct(<< a - 1, a - 1, d2, d2, d2 >>), target))
          /\ BigLeq(target, BigProduct(<< a + 1, a + 1, d2, d2, d2 >>))
IsKurtosis(x, r, scale) ==
  LET n == Len(x)
      d == Deviations(x)
      d2 == SumSeq(Powers(d, 2))
      target == BigMul(BigProduct(<< scale, n >>), FourthPowers(d))
  IN IF n = 0 \/ d2 = 0 THEN r = NotANumber
     ELSE /\ r # NotANumber /\ r + 3 * scale >= 1
          /\ BigLeq(BigProduct(<< r + 3 * scale - 1, d2, d2 >>), target)
          /\ BigLeq(target, BigProduct(<< r + 3 * scale + 1, d2, d2 >>))

(* Twice the median: as many values below as above. *)
Ranked(x, k) == CHOOSE v \in { x[i] : i \in 1..Len(x) } :
  /\ Cardinality({ i \in 1..Len(x) : x[i] < v }) < k
  /\ Cardinality({ i \in 1..Len(x) : x[i] <= v }) >= k
TwiceMedian(x) == LET n == Len(x) IN Ranked(x, (n + 1) \div 2) + Ranked(x, (n \div 2) + 1)
Truncated(i) == IF i >= 0 THEN i \div 2 ELSE -((-i) \div 2)
IsMedian(x, r, integral) ==
  IF x = << >> THEN TRUE
  ELSE r = IF integral THEN (IF Len(x) % 2 = 1 THEN Ranked(x, (Len(x) + 1) \div 2) ELSE Truncated(TwiceMedian(x))) ELSE TwiceMedian(x)

(* Resampling: replicates are samples of the same size from the same data.  *)
(* With many replicates, every element is drawn and some sample repeats one. *)
ItemsOf(s) == { s[i] : i \in 1..Len(s) }
Replicated(x, k, R) ==
  IF x = << >> THEN R = << >>
  ELSE /\ Len(R) = k
       /\ \A i \in 1..Len(R) : Len(R[i]) = Len(x) /\ ItemsOf(R[i]) \subseteq ItemsOf(x)
       /\ (k >= 40 => UNION { ItemsOf(R[i]) : i \in 1..Len(R) } = ItemsOf(x))
       /\ (k >= 40 /\ Len(x) >= 3 => \E i \in 1..Len(R) : Cardinality(ItemsOf(R[i])) < Len(x))

(* Rank that belongs to the fraction a / 32 of k values *)
Percentile(v, a) == Ranked(v, (Len(v) * a + 31) \div 32)

(* Compensated sums of single precision numbers.  A state is the exact       *)
(* value, the sum of the magnitudes that were added, and the error that is   *)
(* permitted in addition to a few units in the last place of the latter.     *)
SumStart(v) == [ value |-> v, mass |-> AbsInt(v), slack |-> 1 ]
SumAdd(s, v) == [ value |-> s.value + v, mass |-> s.mass + AbsInt(v), slack |-> s.slack ]
SumMul(s, f) == [ value |-> s.value * f, mass |-> s.mass * f, slack |-> s.slack * f + (s.mass * f) \div 4194304 + 1 ]
SumDiv(s, f) == [ value |-> s.value \div f, mass |-> s.mass \div f, slack |-> (s.slack + f - 1) \div f + 2 ]
SumClose(s, r) == AbsInt(r - s.value) <= (s.mass \div 2097152) + s.slack
=============================================================================
