---------------------------- MODULE MC_UnionFind ----------------------------
EXTENDS UnionFind, TLC, CSV, Json, IOUtils

CONSTANTS Elements, Depth

VARIABLES rep, merged, hist

Init == rep = Fresh(Elements) /\ merged = {} /\ hist = <<>>

Merge(u, v) ==
  /\ Len(hist) < Depth
  /\ rep' = MergeInto(rep, u, v)
  /\ merged' = merged \cup {{u, v}}
  /\ hist' = Append(hist, <<u, v>>)

Next == \E u, v \in Elements : Merge(u, v)
Spec == Init /\ [][Next]_<<rep, merged, hist>>

RECURSIVE Reach(_)
Reach(V) == LET N == V \cup UNION {e \in merged : e \cap V # {}} IN IF N = V THEN V ELSE Reach(N)

(* The classes are exactly the classes of the equivalence closure. *)
ClosureOK == \A u, v \in Elements : Same(rep, u, v) <=> v \in Reach({u})
RepresentativeOK == \A u \in Elements : rep[u] \in ClassOf(rep, u) /\ rep[rep[u]] = rep[u]
RootsOK == Cardinality(Roots(rep)) = Cardinality({ClassOf(rep, u) : u \in Elements})
PartitionOK == UNION {ClassOf(rep, r) : r \in Roots(rep)} = Elements

Export == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.EXPORT)
=============================================================================
