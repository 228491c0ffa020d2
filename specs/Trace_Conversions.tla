-------------------------- MODULE Trace_Conversions --------------------------
EXTENDS Containers, FunctionalTrace

SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Range(s) \union Range(t) :
                      Cardinality({ i \in 1..Len(s) : s[i] = x }) = Cardinality({ i \in 1..Len(t) : t[i] = x })
RECURSIVE Less(_, _)
Less(p, q) == IF q = << >> THEN FALSE ELSE IF p = << >> THEN TRUE
              ELSE p[1] < q[1] \/ (p[1] = q[1] /\ Less(Tail(p), Tail(q)))
Select(P, K, d) == SelectSeq(P, LAMBDA p : Len(K[p[1] + 1]) = d + 1)
Dimensions(P, K) == Ascending({ Len(K[P[i][1] + 1]) - 1 : i \in 1..Len(P) })

AcceptConversion(e) ==
  LET in == e.in out == e.out IN
  CASE in.k = "values" -> SameBag(out.points, Points(in.P, in.v)) /\ out.dimension = 0
    [] in.k = "complex" ->
         LET D == Dimensions(in.P, in.K) IN
         /\ Len(out.diagrams) = Len(D)
         /\ \A i \in 1..Len(D) : out.diagrams[i].dimension = D[i] /\ SameBag(out.diagrams[i].points, Points(Select(in.P, in.K, D[i]), in.v))
    [] in.k = "function" ->
         (* points that are not on the diagonal; the global minimum is unpaired *)
         LET L == Range(in.f)
             off == SelectSeq(out.points, LAMBDA p : p[1] # p[2])
             paired == SelectSeq(off, LAMBDA p : p[2] # 2000000000)
             rest == SelectSeq(off, LAMBDA p : p[2] = 2000000000)
         IN /\ out.dimension = 0
            /\ rest = << << MinOver(in.f, 1, Len(in.f)), 2000000000 >> >>
            /\ \A x \in Range(paired) : x[1] \in L /\ x[2] \in L
            /\ \A b, d \in L : b < d => Cardinality({ i \in 1..Len(paired) : paired[i] = << b, d >> }) = Multiplicity(in.f, b, d)
    [] in.k = "points" ->
         /\ out.eq = (in.p = in.q) /\ out.ne = (in.p # in.q)
         /\ out.lt = Less(in.p, in.q)
         /\ out.d = Len(in.p) /\ out.size = Len(in.p) /\ out.coordinates = in.p /\ out.text = in.p
=============================================================================
