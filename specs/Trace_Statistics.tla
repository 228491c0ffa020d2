--------------------------- MODULE Trace_Statistics ---------------------------
EXTENDS Statistics, FunctionalTrace

AcceptStatistic(e) ==
  LET x == e.in.x IN
  CASE e.in.k = "sample" ->
         /\ IsMean(x, e.out.mean, 1000)
         /\ IsVariance(x, e.out.variance, 1000)
         /\ IsDeviation(x, e.out.deviation, 1000)
         /\ IsSkewness(x, e.out.skewness, 1000)
         /\ IsKurtosis(x, e.out.kurtosis, 1000)
         /\ (x # << >> => IsMedian(x, e.out.median, e.in.t \in {"int", "short", "char", "byte"}))
    [] e.in.k = "covariance" ->
         IF Len(x) > 1 /\ Len(e.in.y) > 1 /\ Len(x) # Len(e.in.y) THEN e.out.error
         ELSE ~e.out.error /\ IsCovariance(x, e.in.y, e.out.covariance, 1000)
    [] e.in.k = "sum" ->
         /\ SumClose([ value |-> e.in.init + SumSeq(x), mass |-> AbsInt(e.in.init) + SumSeq([ i \in 1..Len(x) |-> AbsInt(x[i]) ]), slack |-> 0 ], e.out.sum)
         /\ SumClose([ value |-> e.in.init + SumSeq(x), mass |-> AbsInt(e.in.init) + SumSeq([ i \in 1..Len(x) |-> AbsInt(x[i]) ]), slack |-> 0 ], e.out.sorted)
    [] e.in.k = "replicates" -> Replicated(x, e.in.n, e.out.replicates)
    [] e.in.k = "error" ->
         /\ Len(e.out.log) = e.in.n
         /\ IsDeviation(e.out.log, e.out.error, 1000)
    [] e.in.k = "percentile" ->
         /\ Len(e.out.log) = e.in.n
         /\ e.out.lower = Percentile(e.out.log, e.in.a)
         /\ e.out.upper = Percentile(e.out.log, 32 - e.in.a)
    [] e.in.k = "basic" ->
         LET theta == SumSeq(x) IN
         /\ Len(e.out.log) = e.in.n
         /\ e.out.lower = 2 * theta - Percentile(e.out.log, 32 - e.in.a)
         /\ e.out.upper = 2 * theta - Percentile(e.out.log, e.in.a)
    [] e.in.k = "student" ->
         LET theta == SumSeq(x) IN
         /\ e.out.lower <= e.out.upper
         /\ AbsInt(e.out.lower + e.out.upper - 2000 * theta) <= 2
=============================================================================
