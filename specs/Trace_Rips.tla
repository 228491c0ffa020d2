----------------------------- MODULE Trace_Rips -----------------------------
EXTENDS Rips, FunctionalTrace

Once(D) == Distinct(D)

(* Expansion of a weighted graph.  The input complex lists vertices and      *)
(* edges (and possibly simplices of higher dimension, which play no role).   *)
AcceptExpansion(e) ==
  LET C    == Content(e.in.items)
      verts == {x.s : x \in {y \in ItemsOf(C) : Dim(y.s) = 0}}
      V    == UNION verts
      E    == {x.s : x \in {y \in ItemsOf(C) : Dim(y.s) = 1}}
      w    == [s \in E |-> Lookup(C, s).w]
      d    == e.in.d
      F    == Flag(V, E, d)
      X    == Content(e.out.expanded)
      M    == Content(e.out.maximum)
      A    == Content(e.out.data)
      B    == Content(e.out.minimum)
      T    == Content(e.out.topdown)
      TW   == Content(e.out.topdownWeights)
      TK   == Content(e.out.topdownFrom)
      order == SetToSortSeq(V, LAMBDA a, b : a < b)
      val(v) == e.in.f[CHOOSE k \in 1..Len(order) : order[k] = v]
  IN /\ Once(X) /\ SimplicesOf(X) = F
     /\ \A x \in ItemsOf(X) : Dim(x.s) <= 1 => x.w = Lookup(C, x.s).w
     /\ Once(M) /\ SimplicesOf(M) = F
     /\ \A x \in ItemsOf(M) : x.w = IF Dim(x.s) = 0 THEN Lookup(C, x.s).w ELSE MaxEdgeWeight(w, x.s)
     /\ Once(A) /\ ItemsOf(A) = {Item(s, Max({val(v) : v \in s})) : s \in F}
     /\ Once(B) /\ ItemsOf(B) = {Item(s, Min({val(v) : v \in s})) : s \in F}
     /\ Once(T) /\ SimplicesOf(T) = F
     /\ Once(TW) /\ SimplicesOf(TW) = F
     /\ \A x \in ItemsOf(TW) : Dim(x.s) >= 1 => x.w = MaxEdgeWeight(w, x.s)
     /\ Once(TK) /\ SimplicesOf(TK) = {s \in F : Dim(s) >= e.in.kmin}

(* Vietoris-Rips complex of a point cloud, per implementation of the search *)
AcceptRips(e) ==
  LET F == RipsComplex(e.in.metric, e.in.pts, e.in.R, e.in.hair, e.in.d)
      plain(D) ==
        /\ Distinct(D)
        /\ ItemsOf(D) = {Item(s, Diameter(e.in.metric, e.in.pts, s)) : s \in F}
        /\ SortedBy(D, DataLess)
      valued(D) ==
        /\ Distinct(D)
        /\ ItemsOf(D) = {Item(s, Max({e.in.f[v+1] : v \in s})) : s \in F}
        /\ SortedBy(D, DataLess)
  IN \A k \in 1..Len(e.out) : plain(Content(e.out[k].plain)) /\ valued(Content(e.out[k].valued))
=============================================================================
