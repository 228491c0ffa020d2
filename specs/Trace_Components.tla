-------------------------- MODULE Trace_Components --------------------------
(* Connected components of a complex; degree-0 persistence by the elder     *)
(* rule; the extended persistence hierarchy.                                *)
EXTENDS ElderRule, FunctionalTrace

FiltrationOf(in) == [k \in 1..Len(in.K) |-> SetOf(in.K[k])]

AcceptComponents(e) ==
  LET S == {SetOf(e.in.K[k]) : k \in 1..Len(e.in.K)}
      cs == [k \in 1..Len(e.out.classes) |-> SetOf(e.out.classes[k].members)] IN
  /\ {cs[k] : k \in 1..Len(cs)} = Components(S)
  /\ Len(cs) = Cardinality(Components(S))
  /\ \A k \in 1..Len(cs) :
       /\ Len(e.out.classes[k].members) = Cardinality(cs[k])
       /\ e.out.classes[k].of \in cs[k]
  /\ \A k \in 1..Len(e.out.same) :
       LET q == e.out.same[k] IN q[3] = (q[2] \in ComponentOf(S, q[1]))

-----------------------------------------------------------------------------
AcceptElder(e) ==
  LET F == FiltrationOf(e.in)
      W == e.in.W
      m == RunElder(F)
      nonzero == {p \in m.pairs : W[p[1]] # W[p[2]]}
      inf == BagOfSet(m.alive, LAMBDA i : W[i])
      pts(P) == BagOfSet(P, LAMBDA p : <<W[p[1]], W[p[2]]>>)
      prs(P) == {<<p[1]-1, p[2]-1>> : p \in P} \cup {<<i-1, -1>> : i \in m.alive} IN
  /\ \A k \in 1..Len(e.out.runs) :
       LET r == e.out.runs[k]
           P == IF r.diagonal THEN m.pairs ELSE nonzero IN
       /\ r.dgm.dim = 0
       /\ BagOf(r.dgm.pts) = pts(P)
       /\ BagOf(r.dgm.inf) = inf
       /\ IF r.pairing
          THEN SetOf(r.pairs) = prs(P) /\ Len(r.pairs) = Cardinality(prs(P))
          ELSE r.pairs = <<>>
  \* the general computation reports the same features
  /\ BagOf(e.out.general.pts) = pts(m.pairs)
  /\ BagOf(e.out.general.inf) = inf
  \* callbacks: one per vertex, one per merge in filtration order, one per
  \* surviving component
  /\ SetOf(e.out.initialised) = VerticesOf(SetOf(F))
  /\ Len(e.out.initialised) = Cardinality(VerticesOf(SetOf(F)))
  /\ Len(e.out.merges) = Cardinality(m.pairs)
  /\ \A k \in 1..Len(e.out.merges) :
       LET c == e.out.merges[k]
           j == m.order[k]
           i == CHOOSE i \in 1..Len(F) : <<i, j>> \in m.pairs IN
       /\ {c[1]} = F[i] /\ {c[2]} = F[m.into[k]]
       /\ c[3] = W[i] /\ c[4] = W[j]
       /\ {c[5], c[6]} = F[j]
  /\ BagOf(e.out.survivors) = BagOfSet(m.alive, LAMBDA i : <<CHOOSE v \in F[i] : TRUE, W[i]>>)

-----------------------------------------------------------------------------
(* Hierarchy: pairing of all vertices; each creator that is destroyed with  *)
(* non-zero persistence has one parent, which the machine below allows.     *)
AcceptHierarchy(e) ==
  LET F == FiltrationOf(e.in)
      W == e.in.W
      m == RunElder(F)
      h == RunHierarchy(F, W)
      prs == {<<p[1]-1, p[2]-1>> : p \in m.pairs} \cup {<<i-1, -1>> : i \in m.alive} IN
  /\ SetOf(e.out.pairs) = prs /\ Len(e.out.pairs) = Cardinality(prs)
  /\ Len(e.out.edges) = Len(h)
  /\ \A k \in 1..Len(h) :
       \E q \in 1..Len(e.out.edges) :
         /\ e.out.edges[q][2] = h[k].child
         /\ e.out.edges[q][1] \in h[k].parents
=============================================================================
