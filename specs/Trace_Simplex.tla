---------------------------- MODULE Trace_Simplex ----------------------------
(* Validates what simplices built from arbitrary vertex lists show.          *)
EXTENDS ComplexContainer, FunctionalTrace

NoRepetition(q) == Cardinality(SetOf(q)) = Len(q)

EachOK(list, w, probe, x) ==
  LET s == SetOf(list)
      q == Descending(s)
  IN /\ x.v = q
     /\ Len(x.rev) = Len(q) /\ \A k \in 1..Len(q) : x.rev[k] = q[Len(q) + 1 - k]
     /\ x.pos = q
     /\ x.refused
     /\ x.size = Cardinality(s)
     /\ x.empty = (s = {})
     /\ x.bool = (s # {})
     /\ x.dim = Dim(s)                          \* -1: refused for the empty simplex
     /\ s # {} => x.w = w
     /\ NoRepetition(x.boundary)
     /\ {SetOf(x.boundary[k]) : k \in 1..Len(x.boundary)} = Facets(s)
     /\ \A k \in 1..Len(x.boundary) : x.boundary[k] = Descending(SetOf(x.boundary[k]))
     /\ \A k \in 1..Len(probe) : x.has[k] = (probe[k] \in s)
     /\ x.reweighted = <<99, 98, TRUE, TRUE>>
     /\ x.copy = q

AcceptSimplices(e) ==
  LET n == Len(e.in.lists)
      S(k) == SetOf(e.in.lists[k])
  IN /\ Len(e.out.each) = n /\ Len(e.out.rel) = n
     /\ \A k \in 1..n : EachOK(e.in.lists[k], e.in.W[k], e.in.probe, e.out.each[k])
     /\ \A j, k \in 1..n :
          LET r == e.out.rel[j][k] IN
          /\ r[1] = (S(j) = S(k))
          /\ r[2] = (S(j) # S(k))
          /\ r[3] = LexLess(S(j), S(k))
          /\ S(j) = S(k) => r[4]
=============================================================================
