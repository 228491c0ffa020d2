--------------------------- MODULE MC_Statistics ---------------------------
(* Samples grow by one value per step.                                       *)
EXTENDS Statistics, CSV, Json, IOUtils

CONSTANTS Values, MaxN

QuickValues == { -3, 0, 1, 2 }
ThoroughValues == { -5, -1, 0, 2, 7 }

VARIABLE x
Init == x = << >>
Next == Len(x) < MaxN /\ \E v \in Values : x' = Append(x, v)
Spec == Init /\ [][Next]_x

Shift(s, c) == [ i \in 1..Len(s) |-> s[i] + c ]
Rescale(s, c) == [ i \in 1..Len(s) |-> s[i] * c ]
Backwards(s) == [ i \in 1..Len(s) |-> s[Len(s) + 1 - i] ]
Some == Len(x) >= 2
ShiftLaw == Some => CovarianceNumerator(Shift(x, 5), Shift(x, 5)) = CovarianceNumerator(x, x)
ScaleLaw == Some => CovarianceNumerator(Rescale(x, 3), x) = 3 * CovarianceNumerator(x, x)
Symmetric == Some => CovarianceNumerator(x, Backwards(x)) = CovarianceNumerator(Backwards(x), x)
CauchySchwarz == Some => AbsInt(CovarianceNumerator(x, Backwards(x))) <= CovarianceNumerator(x, x)
SumOfSquares == Some => CovarianceNumerator(x, x) = Len(x) * SumSeq(Powers(x, 2)) - SumSeq(x) ^ 2
KurtosisBound == Some => Len(x) * SumSeq(Powers(Deviations(x), 4)) >= SumSeq(Powers(Deviations(x), 2)) ^ 2
Centred == SumSeq(Deviations(x)) = 0
MedianLaws == x # << >> =>
  /\ TwiceMedian(Backwards(x)) = TwiceMedian(x)
  /\ TwiceMedian(Shift(x, 4)) = TwiceMedian(x) + 8
  /\ TwiceMedian(Rescale(x, -1)) = -TwiceMedian(x)
  /\ 2 * Cardinality({ i \in 1..Len(x) : 2 * x[i] < TwiceMedian(x) }) <= Len(x)
  /\ 2 * Cardinality({ i \in 1..Len(x) : 2 * x[i] > TwiceMedian(x) }) <= Len(x)
(* Arithmetic of large numbers agrees with that of small ones. *)
BigLaws == LET a == AbsInt(SumSeq(Powers(x, 4))) b == AbsInt(SumSeq(x)) + 9998 IN
  /\ BigMul(ToBig(a), ToBig(b)) = ToBig(a * b)
  /\ BigAdd(ToBig(a), ToBig(b)) = ToBig(a + b)
  /\ BigLeq(ToBig(a), ToBig(b)) = (a <= b)
  /\ BigMul(BigMul(ToBig(b), ToBig(b)), ToBig(b + 1)) = BigMul(ToBig(b), BigMul(ToBig(b + 1), ToBig(b)))
(* A correctly rounded answer is accepted, one that is off by a lot is not. *)
Sharp == Len(x) >= 1 => LET n == Len(x) r == (1000 * SumSeq(x)) \div n IN
  IsMean(x, r, 1000) /\ ~IsMean(x, r + 3, 1000) /\ ~IsMean(x, NotANumber, 1000)
Export == CSVWrite("%1$s", <<ToJson(x)>>, IOEnv.EXPORT)
=============================================================================
