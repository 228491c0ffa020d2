--------------------------- MODULE Trace_Summaries ---------------------------
EXTENDS Summaries, FunctionalTrace

SameItems(s, t) == /\ Len(s) = Len(t)
                   /\ \A i \in 1..Len(s) : Cardinality({ j \in 1..Len(s) : s[j] = s[i] }) = Cardinality({ j \in 1..Len(t) : t[j] = s[i] })

AcceptSummary(e) ==
  CASE e.in.k = "envelope" ->
         LET D == e.in.D IN
         /\ { e.out.points[i][1] : i \in 1..Len(e.out.points) } = Mids(D)
         /\ Len(e.out.points) = Cardinality(Mids(D))
         /\ \A i \in 1..Len(e.out.points) : e.out.points[i][2] = EnvelopeAt(D, e.out.points[i][1])
         /\ e.out.after = e.in.D
    [] e.in.k = "entropy" -> CloseTo(e.out.h, IF e.in.D = << >> THEN 0 ELSE Entropy(Persistences(e.in.D)))
    [] e.in.k = "area" -> CloseTo(e.out.h, Entropy(NearestSquares(e.in.D)))
    [] e.in.k = "grid" -> CloseTo(e.out.h, IF e.in.D = << >> THEN 0 ELSE Entropy(GridCounts(e.in.D, e.in.n)))
    [] e.in.k = "mean" ->
         LET M == Means(e.in.Ds)
             n == Len(e.in.Ds)
             Near(p, q) == /\ AbsOf(n * p[1] - 1000 * q[1]) <= n /\ AbsOf(n * p[2] - 1000 * q[2]) <= n
         IN /\ Len(e.out.points) = Len(M)
            /\ \A i \in 1..Len(M) : \E j \in 1..Len(M) : Near(e.out.points[j], M[i])
            /\ e.out.dimension = e.in.d
=============================================================================
