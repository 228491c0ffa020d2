-------------------------- MODULE Trace_Constructions --------------------------
EXTENDS Constructions, Spine, FunctionalTrace

Input(e) == [k \in 1..Len(e.in.K) |-> Item(SetOf(e.in.K[k]), e.in.W[k])]
NewVertices(C, D) == VerticesOf(SimplicesOf(D)) \ VerticesOf(SimplicesOf(C))

(* New simplices s + {c} weigh w(s) * a + b; the new vertex weighs b *)
Weighed(C, c, a, b) ==
  {Item({c}, b)} \cup {Item(x.s \cup {c}, x.w * a + b) : x \in ItemsOf(C)}

AcceptCone(e) ==
  LET C == Input(e)
      D == Content(e.out.cone)  D0 == Content(e.out.cone0)
      E == Content(e.out.suspension)  E0 == Content(e.out.suspension0)
      ok1(X, a, b) == /\ Distinct(X) /\ Cardinality(NewVertices(C, X)) = 1
                      /\ LET c == CHOOSE v \in NewVertices(C, X) : TRUE
                         IN ItemsOf(X) = ItemsOf(C) \cup Weighed(C, c, a, b)
      ok2(X, a, b) == /\ Distinct(X) /\ Cardinality(NewVertices(C, X)) = 2
                      /\ ItemsOf(X) = ItemsOf(C) \cup UNION {Weighed(C, c, a, b) : c \in NewVertices(C, X)}
  IN /\ ok1(D, e.in.a, e.in.b) /\ ok1(D0, 0, 0)
     /\ ok2(E, e.in.a, e.in.b) /\ ok2(E0, 0, 0)

AcceptSkeleton(e) ==
  LET C == Input(e) IN
  /\ \A k \in 1..Len(e.out.skeleta) : Content(e.out.skeleta[k]) = SkeletonOf(C, k-1)
  /\ Content(e.out.filtered) = Filtered(C, LAMBDA x : x.w <= e.in.t2)

(* e.in.f[d+1] is the factor for simplices of dimension d *)
AcceptSubdivision(e) ==
  LET C == Input(e)
      S == SimplicesOf(C)
      V == VerticesOf(S)
      ok(X, f(_)) ==
        LET bary == [v \in VerticesOf(SimplicesOf(X)) |-> Barycentre(S, X, v)]
            name(s) == {bary[v] : v \in s}
            top(T) == CHOOSE t \in T : \A u \in T : u \subseteq t
        IN /\ Distinct(X)
           /\ VerticesOf(SimplicesOf(X)) # {} => V \subseteq VerticesOf(SimplicesOf(X))
           /\ Len(X) = Cardinality(Subdivision(S))
           /\ {name(s) : s \in SimplicesOf(X)} = Subdivision(S)
           /\ \A x \in ItemsOf(X) :
                x.w = (IF Cardinality(x.s) = 1 /\ x.s \subseteq V THEN Lookup(C, x.s).w
                       ELSE Lookup(C, top(name(x.s))).w * f(Dim(x.s)))
  IN /\ ok(Content(e.out.plain), LAMBDA d : 1)
     /\ ok(Content(e.out.scaled), LAMBDA d : e.in.f[d+1])

(* Principal simplices and free faces.  The simple implementation does not   *)
(* consider vertices to be principal.                                        *)
AcceptFaces(e) ==
  LET C == Input(e)
      S == SimplicesOf(C)
      pairs == Collapses(S)
      FreeOK(s, q) == IF q = <<>> THEN \A c \in pairs : c[1] # s ELSE <<s, SetOf(q)>> \in pairs
      One(x) == LET s == SetOf(x.s) IN
        /\ s \in S
        /\ {SetOf(x.cofaces[k]) : k \in 1..Len(x.cofaces)} = DirectCofaces(S, s)
        /\ Len(x.cofaces) = Cardinality(DirectCofaces(S, s))
        /\ x.principal = Principal(S, s)
        /\ x.slowPrincipal = (Dim(s) > 0 /\ Principal(S, s))
        /\ FreeOK(s, x.free) /\ FreeOK(s, x.slowFree)
      All(q) == /\ \A k \in 1..Len(q) : <<SetOf(q[k][1]), SetOf(q[k][2])>> \in pairs
                /\ {SetOf(q[k][1]) : k \in 1..Len(q)} = {c[1] : c \in pairs}
                /\ Len(q) = Cardinality({c[1] : c \in pairs})
  IN /\ Len(e.out.each) = Cardinality(S)
     /\ {SetOf(e.out.each[k].s) : k \in 1..Len(e.out.each)} = S
     /\ \A k \in 1..Len(e.out.each) : One(e.out.each[k])
     /\ All(e.out.all[1]) /\ All(e.out.all[2])

AcceptSpine(e) ==
  LET C == Input(e) IN \A k \in 1..Len(e.out) : IsSpine(C, Content(e.out[k]))

(* Euler characteristics of any sequence of diagrams, by their dimensions     *)
AcceptSequence(e) ==
  LET sign(d) == IF d % 2 = 0 THEN 1 ELSE -1
  IN /\ e.out.chi = FoldLeft(LAMBDA acc, d : acc + sign(d.dim) * Len(d.inf), 0, e.in.D)
     /\ e.out.persistent =
          FoldLeft(LAMBDA acc, d : acc + sign(d.dim) * FoldLeft(LAMBDA x, p : x + (p[2] - p[1]), 0, d.pts), 0, e.in.D)

(* Euler characteristic of every prefix of a filtration, directly and from   *)
(* diagrams containing all classes; alternating sum of finite persistences.  *)
AcceptEuler(e) ==
  LET C == Input(e)
      chi(k) == Euler({C[j].s : j \in 1..k})
      sign(d) == IF d % 2 = 0 THEN 1 ELSE -1
  IN /\ Len(e.out.direct) = Len(C) /\ Len(e.out.diagrams) = Len(C)
     /\ \A k \in 1..Len(C) : e.out.direct[k] = chi(k) /\ e.out.diagrams[k] = chi(k)
     /\ e.out.persistent =
          FoldLeft(LAMBDA acc, d : acc + sign(d.dim) * FoldLeft(LAMBDA x, p : x + (p[2] - p[1]), 0, d.pts), 0, e.out.dgms)
=============================================================================
