-------------------------- MODULE Trace_UnionFind --------------------------
EXTENDS UnionFind, StatefulTrace

SetOf(s) == {s[k] : k \in 1..Len(s)}
Distinct(s) == Cardinality(SetOf(s)) = Len(s)

StartUF(in) == Fresh(SetOf(in.elements))

Unchanged(rep, b) == [ok |-> b, st |-> rep]

StepUF(rep, op, res) ==
  CASE op.op = "merge"    -> [ok |-> TRUE, st |-> MergeInto(rep, op.u, op.v)]
    [] op.op = "find"     -> Unchanged(rep, IF op.u \in DOMAIN rep THEN ~res.exc /\ res.r = rep[op.u] ELSE res.exc)
    [] op.op = "contains" -> Unchanged(rep, res.r = (op.u \in DOMAIN rep))
    [] op.op = "roots"    -> Unchanged(rep, Distinct(res.r) /\ SetOf(res.r) = Roots(rep))
    [] op.op = "get"      -> Unchanged(rep, Distinct(res.r) /\ SetOf(res.r) = ClassOf(rep, op.u))
    [] op.op = "all"      -> Unchanged(rep,
          /\ Distinct(res.roots) /\ SetOf(res.roots) = Roots(rep)
          /\ {<<p[1], p[2]>> : p \in SetOf(res.finds)} = {<<x, rep[x]>> : x \in DOMAIN rep}
          /\ \A k \in 1..Len(res.classes) :
                LET c == res.classes[k] IN Distinct(c.members) /\ SetOf(c.members) = ClassOf(rep, c.of))
=============================================================================
