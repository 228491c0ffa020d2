--------------------- MODULE Trace_IntersectionHomology ---------------------
EXTENDS IntersectionHomology, FunctionalTrace

Filtration0(e) == [k \in 1..Len(e.in.K) |-> SetOf(e.in.K[k])]
Complexes0(e) == [k \in 1..Len(e.in.X) |-> {SetOf(s) : s \in SetOf(e.in.X[k])}]

(* Diagrams: one per dimension that has a pair or a creator *)
RestrictedDiagramsOK(F, W, proper, ds) ==
  LET st == RestrictedPairing(F, proper)
      L  == st.order
      pos == Index(F)
      wt(k) == W[pos[L[k]]]
      dims == {Dim(L[q[1]]) : q \in st.pairs} \cup {Dim(L[c]) : c \in st.creators}
      pts(d) == BagOfSet({q \in st.pairs : Dim(L[q[1]]) = d}, LAMBDA q : <<wt(q[1]), wt(q[2])>>)
      inf(d) == BagOfSet({c \in st.creators : Dim(L[c]) = d}, LAMBDA c : wt(c))
  IN /\ Len(ds) = Cardinality(dims)
     /\ \A k \in 1..Len(ds) :
          /\ ds[k].dim \in dims
          /\ k > 1 => ds[k-1].dim < ds[k].dim
          /\ BagOf(ds[k].pts) = pts(ds[k].dim)
          /\ BagOf(ds[k].inf) = inf(ds[k].dim)

AcceptIntersection(e) ==
  LET F == Filtration0(e)
      X == Complexes0(e)
      d == DimOf(SetOf(F))
      gm == e.in.gm
      v == IF gm THEN Stepwise(e.in.p, 2) ELSE Clamped(e.in.p)
      p(k) == AtDim(v, IF gm THEN 2 ELSE 1, k)
      proper == {s \in SetOf(F) : Allowable(X, d, IF gm THEN 2 ELSE 1, p, s)}
      n == Len(X)
      refused == \/ Max({DimOf(X[k]) : k \in 1..n} \cup {-1}) # d
                 \/ gm /\ (n <= 2 \/ X[n-1] # X[n-2])
  IN /\ e.out.values = v
     /\ \A k \in 1..Len(e.out.at) : e.out.at[k] = p(k + (IF gm THEN 1 ELSE 0))
     /\ IF refused THEN e.out.error = "runtime_error"
        ELSE /\ e.out.error = ""
             /\ \A k \in 1..Len(e.out.dgms) : RestrictedDiagramsOK(F, e.in.W, proper, e.out.dgms[k])

AcceptPartition(e) ==
  LET F == Filtration0(e)
      proper == {F[k] : k \in {m \in 1..Len(F) : e.in.phi[m]}}
      L == Content(e.out.L)
  IN /\ e.out.n = Cardinality(proper)
     /\ [k \in 1..Len(L) |-> L[k].s] = Partitioned(F, proper)
     /\ \A k \in 1..Len(L) : \E m \in 1..Len(F) : F[m] = L[k].s /\ e.in.W[m] = L[k].w
=============================================================================
