--------------------------- MODULE Trace_Utilities ---------------------------
EXTENDS Utilities, FunctionalTrace

Seqs(t) == [ i \in 1..Len(t) |-> t[i] ]

AcceptUtility(e) ==
  LET in == e.in out == e.out IN
  CASE in.k = "text" ->
         /\ out.left = TrimLeft(in.s) /\ out.right = TrimRight(in.s) /\ out.both = TrimBoth(in.s)
         /\ out.words = Words(in.s) /\ out.count = Len(Words(in.s))
         /\ out.fields = Fields(in.s, Spaces) /\ out.commas = Fields(in.s, {44, 59})
    [] in.k = "path" ->
         /\ out.base = BaseName(in.s) /\ out.stem = Stem(in.s) /\ out.extension = Extension(in.s)
    [] in.k = "number" -> Converted(in.s, out.ok, out.v) /\ out.v = out.w
    [] in.k = "integer" -> IF IsNumeral(in.s) THEN out.ok /\ out.v = Thousandths(in.s) ELSE ~out.ok /\ out.v = 0
    [] in.k = "format" -> out.s = Padded(in.n, in.N, in.fill)
    [] in.k = "vector" ->
         /\ out.sum = VectorSum(in.a, in.b) /\ out.difference = VectorDifference(in.a, in.b)
         /\ out.multiple = Multiple(in.f, in.a)
    [] in.k = "close" -> out.close = Close(in.a, in.b, in.r, in.t) /\ out.same = (in.a = in.b)
    [] in.k = "common" -> { out.c[i] : i \in 1..Len(out.c) } = Range(in.a) \cap Range(in.b) /\ Len(out.c) = Cardinality(Range(out.c))
    [] in.k = "range" -> out.inside = (in.lo <= in.x /\ in.x <= in.hi) /\ out.larger = (in.x > in.lo)
=============================================================================
