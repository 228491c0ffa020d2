--------------------------- MODULE Trace_Curvature ---------------------------
EXTENDS Curvature, FunctionalTrace

Complex(e) == [k \in 1..Len(e.in.K) |-> Item(SetOf(e.in.K[k]), e.in.W[k])]
RECORDED_INF == 2000000000

(* Rows and columns follow the vertices in the order of the complex *)
AcceptPaths(e) ==
  LET C == Complex(e)
      q == SelectSeq(C, LAMBDA x : Dim(x.s) = 0)
      D == GraphDistances(C, e.in.w)
      n == Len(q)
      vert(k) == CHOOSE v \in q[k].s : TRUE
      o == e.out
  IN /\ o.rows = n /\ o.size = (n * (n + 1)) \div 2 /\ o.empty = (n = 0)
     /\ \A i, j \in 1..n :
          LET d == D[<<vert(i), vert(j)>>]
          IN o.M[i][j] = IF d >= Inf THEN RECORDED_INF ELSE d

AcceptDegrees(e) ==
  LET C == Complex(e)
      S == SimplicesOf(C)
      V == SetToSortSeq(VerticesOf(S), LAMBDA a, b : a < b)
      o == e.out
  IN /\ o.degrees = [k \in 1..Len(V) |-> VertexDegree(S, V[k])]
     /\ o.nDegrees = [k \in 1..Len(C) |-> TopDegree(S, C[k].s)]
     /\ \A p \in 1..Len(o.curvature) :
          LET r == o.curvature[p] IN
          /\ {SetOf(r.s[k]) : k \in 1..Len(r.s)} = SimplicesOfDim(S, p)
          /\ Len(r.s) = Cardinality(SimplicesOfDim(S, p))
          /\ Len(r.c) = Len(r.s) /\ Len(r.w) = Len(r.s)
          /\ \A k \in 1..Len(r.s) : r.c[k] = Forman(S, SetOf(r.s[k])) /\ r.w[k] = r.c[k]
          /\ {SetOf(r.u[k]) : k \in 1..Len(r.u)} = SimplicesOfDim(S, p)
          /\ Len(r.u) = Len(r.s) /\ Len(r.v) = Len(r.s)
          /\ Cardinality(S) <= 40 => LET P == [s \in S |-> e.in.P[CHOOSE k \in 1..Len(C) : C[k].s = s]] IN
             \A k \in 1..Len(r.u) :
               LET s == SetOf(r.u[k]) IN WeightedDecided(S, P, s) => r.v[k] = WeightedForman(S, P, s)
     /\ DimOf(S) >= 2 =>
          /\ {SetOf(o.defect.s[k]) : k \in 1..Len(o.defect.s)} = SimplicesOfDim(S, DimOf(S) - 2)
          /\ Len(o.defect.s) = Len(o.defect.n)
          /\ \A k \in 1..Len(o.defect.s) : o.defect.n[k] = TopDegree(S, SetOf(o.defect.s[k]))
=============================================================================
