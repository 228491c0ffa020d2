-------------------------- MODULE Trace_Neighbours --------------------------
EXTENDS Neighbours, FunctionalTrace

AcceptQuery(e) ==
  LET n == Len(e.in.pts) IN
  \A x \in 1..Len(e.out) :
    LET o == e.out[x] IN
    /\ Len(o.ri) = n /\ Len(o.rd) = n /\ Len(o.ki) = n /\ Len(o.kd) = n
    /\ \A i \in 0..n-1 :
         /\ RadiusRow(e.in.metric, e.in.pts, e.in.R, e.in.hair, i, o.ri[i+1], o.rd[i+1])
         /\ NeighbourRow(e.in.metric, e.in.pts, e.in.k, i, o.ki[i+1], o.kd[i+1])
    /\ o.size = n
=============================================================================
