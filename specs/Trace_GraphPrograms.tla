------------------------ MODULE Trace_GraphPrograms ------------------------
(* Validates recorded runs of programs for graphs, matrices and functions.   *)
EXTENDS GraphPrograms, FunctionalTrace

Same(q, r) == BagOf(q) = BagOf(r)
Close(x, a, b) == Magnitude((x * b) - (1000 * a)) <= b

BettiOK(c, r) ==
  LET ids == SetToSortSeq({c.files[k].id : k \in 1..Len(c.files)}, <)
      last(i) == c.files[Max({k \in 1..Len(c.files) : c.files[k].id = i})]
  IN r.rows = [k \in 1..Len(ids) |-> <<ids[k], CycleRank(SetOf(last(ids[k]).nodes), EdgesOf(last(ids[k]).edges))>>]

CollectionOK(c, r) ==
  LET n == GraphCount(c)
      D == CollectionDimension(c)
  IN /\ {<<r.files[k].g, r.files[k].d>> : k \in 1..Len(r.files)} = (1..n) \X (0..D)
     /\ Len(r.files) = n * (D + 1)
     /\ \A k \in 1..Len(r.files) : Same(r.files[k].pts, CollectionFile(c, r.files[k].g, r.files[k].d))
     /\ r.labels = c.labels
     /\ c.close => /\ Len(r.close) = n
                   /\ \A g \in 1..n :
                        LET G == GraphOf(c, g)
                            q == SetToSortSeq(G.v, <)
                        IN /\ Len(r.close[g]) = Len(q)
                           /\ \A k \in 1..Len(q) :
                                LET s == DistanceSum(G, q[k]) IN
                                IF s = 0 THEN r.close[g][k] = Forever ELSE Close(r.close[g][k], Len(q), s)
     /\ c.gml => /\ Len(r.gml) = n
                 /\ \A g \in 1..n :
                      LET G == GraphOf(c, g)
                          w == r.gml[g]
                      IN /\ Len(w.nodes) = Cardinality(G.v)
                         /\ SetOf(w.nodes) = {<<v, c.names[v]>> : v \in G.v}
                         /\ Len(w.edges) = Cardinality(G.e) /\ EdgesOf(w.edges) = G.e
                         /\ \A k \in 1..Len(w.edges) : w.edges[k][3] = DegreeWeight(c, G, {w.edges[k][1], w.edges[k][2]})

ConnectivityOK(c, r) ==
  LET want == FoldLeft(LAMBDA acc, f : acc \o [k \in 1..Len(MatrixDiagrams(f.m, c.keep, c.inf)) |->
                         [name |-> f.name, d |-> MatrixDiagrams(f.m, c.keep, c.inf)[k].d, pts |-> MatrixDiagrams(f.m, c.keep, c.inf)[k].pts]],
                       <<>>, c.files)
  IN /\ Len(r.diagrams) = Len(want)
     /\ \A k \in 1..Len(want) :
          LET x == r.diagrams[k]
              w == want[k]
              finite == \A j \in 1..Len(w.pts) : ~Unpaired(w.pts[j])
          IN /\ x.name = w.name /\ x.d = w.d /\ Same(x.pts, w.pts) /\ x.size = Len(w.pts)
             /\ x.betti = Cardinality({j \in 1..Len(w.pts) : Unpaired(w.pts[j])})
             /\ finite => x.t1 = TotalOf(w.pts, 1) /\ x.t2 = TotalOf(w.pts, 2)

CliquesOK(c, r) ==
  LET S == CliqueComplex(c) IN
  /\ r.t = c.t
  /\ Len(r.levels) = c.top
  /\ \A k \in 1..c.top :
       LET x == r.levels[k] IN
       /\ x.size = k + 1
       /\ {{SetOf(x.parts[i][j]) : j \in 1..Len(x.parts[i])} : i \in 1..Len(x.parts)} = Communities(S, k)
       /\ Len(x.parts) = Cardinality(Communities(S, k))
       /\ Sum([i \in 1..Len(x.parts) |-> Len(x.parts[i])]) = Cardinality(SimplicesOfDim(S, k))

FunctionsOK(c, r) ==
  /\ Len(r.rows) = Len(c.fs)
  /\ \A k \in 1..Len(c.fs) :
       LET q == FunctionPoints(LineValues(c.fs[k], c.norm), c.super)
           p == [j \in 1..Len(q) |-> q[j][2] - q[j][1]]
           x == r.rows[k]
           u == IF c.norm /\ Cardinality(SetOf(c.fs[k])) > 1 THEN Whole ELSE 1
       IN IF ~c.cond THEN Same(r.rows[k], q)
          ELSE /\ Len(x) = 4
               /\ Magnitude((x[1] * u) - (1000 * Min(SetOf(p)))) <= u
               /\ Magnitude((x[2] * u) - (1000 * Max(SetOf(p)))) <= u
               /\ Magnitude((x[3] * Len(p)) - ((1000 * Sum(p)) \div u)) <= 2 * Len(p)
               /\ LET w == [j \in 1..Len(p) |-> (60 * p[j]) \div u] IN    \* sixtieths
                  Magnitude(((x[4] * 60) \div 1000)^2 - Sum([j \in 1..Len(w) |-> w[j] * w[j]])) <=
                     (4 * ((x[4] * 60) \div 1000)) + 4 + 2 * Sum([j \in 1..Len(w) |-> Magnitude(w[j]) + 1])

SpectrumOK(c, r) ==
  LET P == SpectrumPairs(c.ys) IN
  CASE c.mode = "identity" -> r.rows = [k \in 1..Len(c.xs) |-> <<c.xs[k], c.ys[k]>>]
    [] c.mode = "diagram" ->
       LET q == SetToSeq({p \in P : c.ys[p[1]] # p[2]}) IN
       Same(r.rows, [k \in 1..Len(q) |-> <<c.ys[q[k][1]], q[k][2]>>])
    [] OTHER -> \* every vertex creates a component
       r.rows = [v \in 1..Len(c.xs) |-> <<c.xs[v], c.ys[v] - (CHOOSE p \in P : p[1] = v)[2]>>]

AcceptGraphPrograms(e) ==
  LET c == e.in
      r == e.out
  IN /\ r.rc = 0
     /\ CASE c.k = "betti"     -> BettiOK(c, r)
          [] c.k = "tu"        -> CollectionOK(c, r)
          [] c.k = "connect"   -> ConnectivityOK(c, r)
          [] c.k = "cliques"   -> CliquesOK(c, r)
          [] c.k = "functions" -> FunctionsOK(c, r)
          [] c.k = "spectrum"  -> SpectrumOK(c, r)
=============================================================================
