-------------------------- MODULE Trace_Laplacians --------------------------
EXTENDS Laplacians, FunctionalTrace

Rank(v, vs) == CHOOSE i \in 1..Len(vs) : vs[i] = v
Range(s) == { s[i] : i \in 1..Len(s) }
(* Edges of a complex in terms of the positions of the sorted vertices *)
RECURSIVE EdgesOf(_, _, _, _)
EdgesOf(K, V, vs, i) ==
  IF i > Len(K) THEN << >>
  ELSE (IF Len(K[i]) = 2 THEN << << Rank(K[i][1], vs), Rank(K[i][2], vs), V[i] >> >> ELSE << >>) \o EdgesOf(K, V, vs, i + 1)
Increasing(vs) == \A i \in 1..Len(vs) - 1 : vs[i] < vs[i + 1]

(* in.K, in.W: complex and weights; out.vs: its vertices *)
KnownVertices(in, out) == Increasing(out.vs) /\ Range(out.vs) = UNION { Range(in.K[i]) : i \in 1..Len(in.K) }

AcceptLaplacian(e) ==
  LET in == e.in out == e.out IN
  /\ KnownVertices(in, out)
  /\ LET n == Len(out.vs)
         W == TLCEval(Adjacency(n, EdgesOf(in.K, in.W, out.vs, 1)))
         L == TLCEval(Laplacian(W))
     IN
     CASE in.k = "matrices" ->
            /\ out.W = W /\ out.L = L
            /\ (Connected(W) /\ (\A i, j \in 1..n : W[i][j] >= 0) => IsPseudoInverse(out.P, L, in.s))
       [] in.k = "heat" ->
            (* all pairs at t = p/q, and at 2t; H in HeatUnit *)
            LET H == Heat(L, in.p, in.q) IN
            /\ Len(out.H) = n
            /\ Close(out.H, H, 200)
            /\ Len(out.all) = n * n
            /\ \A i, j \in 1..n : Abs(out.all[(i - 1) * n + j] - out.H[i][j]) <= 8
            /\ \A i \in 1..n : Abs(out.auto[i] - out.H[i][i]) <= 8
            /\ Abs(out.trace - Trace(out.H)) <= 8 + n
            /\ LET S == Shrunk(out.H, 64) IN Close(Shrunk(out.double, 64), Shrunk(Product(S, S), 16384), n + 2)
            (* minus the logarithm of the determinant, in 1/1000 *)
            /\ Abs(in.q * out.logdet - 1000 * in.p * Trace(L)) <= in.q * 2
       [] in.k = "interval" ->
            (* 4 log 10 divided by the sampling points, in 1/1000; the spectrum is integral *)
            /\ Len(out.s) = in.n
            /\ Abs(out.s[1] - 1000 * Max(PositiveRoots(L))) <= 2
            /\ Abs(out.s[in.n] - 1000 * Min(PositiveRoots(L))) <= 2
            (* equal ratios, as squares *)
            /\ \A i \in 2..in.n - 1 : Abs(out.s[i] * out.s[i] - out.s[i - 1] * out.s[i + 1]) <= 4 * out.s[1]

(* Simplices with their weights *)
Simplices(K, V) == { << Range(K[i]), V[i] >> : i \in 1..Len(K) }
Result(r) == { << Range(r[i].s), r[i].w >> : i \in 1..Len(r) }
Within(S, A) == { x \in S : x[1] \subseteq A }
VerticesOf(S) == UNION { x[1] : x \in S }
AcceptBisection(e) ==
  LET in == e.in out == e.out
      S == Simplices(in.K, in.W)
      V == VerticesOf(S)
  IN IF Cardinality(V) < 2 THEN out.error
     ELSE /\ ~out.error
          /\ Len(out.parts) = 2
          /\ LET R == [ i \in 1..2 |-> Result(out.parts[i]) ]
                 A == VerticesOf(R[1])
                 B == VerticesOf(R[2])
                 n == Cardinality(V)
             IN /\ A \union B = V /\ A \intersect B = {}
                /\ R[1] = Within(S, A) /\ R[2] = Within(S, B)
                /\ \A i \in 1..2 : Len(out.parts[i]) = Cardinality(R[i])
                /\ CASE in.k = "path" ->
                          (* in.order lists the vertices along the path *)
                          LET First(m) == { in.order[i] : i \in 1..m }
                          IN { Cardinality(A), Cardinality(B) } = { n \div 2, n - n \div 2 }
                             /\ \E m \in { n \div 2, n - n \div 2 } : A = First(m) \/ B = First(m)
                     [] in.k = "barbell" -> { A, B } = { { in.order[i] : i \in 1..(n \div 2) }, { in.order[i] : i \in (n \div 2 + 1)..n } }
                     [] OTHER -> TRUE
=============================================================================
