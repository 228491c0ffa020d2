---------------------------- MODULE Trace_Cliques ----------------------------
EXTENDS Cliques, FunctionalTrace

Sets(q) == {SetOf(q[k]) : k \in 1..Len(q)}
NoRepetition(q) == \A k \in 1..Len(q) : Cardinality(SetOf(q[k])) = Len(q[k])

(* Both enumerations list the maximal cliques of the 1-skeleton, each once *)
AcceptCliques(e) ==
  LET S == Sets(e.in.K)
      V == VerticesOf(S)
      M == CliquesRec(V, SimplicesOfDim(S, 1))
  IN \A k \in 1..Len(e.out) :
       /\ NoRepetition(e.out[k])
       /\ Len(e.out[k]) = Cardinality(M)
       /\ Sets(e.out[k]) = M

Functor(name, a, b) ==
  CASE name = "max" -> IF a > b THEN a ELSE b
    [] name = "min" -> IF a < b THEN a ELSE b
    [] name = "sum" -> a + b
    [] name = "default" -> IF a > b THEN a ELSE b

AcceptCliqueGraph(e) ==
  LET C == [k \in 1..Len(e.in.K) |-> Item(SetOf(e.in.K[k]), e.in.W[k])]
      D == Content(e.out)
  IN Distinct(D) /\ ItemsOf(D) = CliqueGraph(C, e.in.d, LAMBDA a, b : Functor(e.in.f, a, b))

AcceptIntersections(e) ==
  LET S == Sets(e.in.K)
      s == SetOf(e.in.s)
      t == SetOf(e.in.t2)
      o == e.out
  IN /\ o.size = Cardinality(s \cap t)
     /\ SetOf(o.pair) = s \cap t /\ Len(o.pair) = o.size
     /\ Sets(o.all) = CommonFaces(S, s) /\ NoRepetition(o.all) /\ Len(o.all) = Cardinality(Sets(o.all))
     /\ Sets(o.dim) = CommonFacesOfDim(S, s) /\ NoRepetition(o.dim) /\ Len(o.dim) = Cardinality(Sets(o.dim))
     /\ SetOf(o.last.s) \in LargestCommon(S, s)
     /\ o.last.s # <<>> => \E k \in 1..Len(e.in.K) : SetOf(e.in.K[k]) = SetOf(o.last.s) /\ e.in.W[k] = o.last.w
=============================================================================
