------------------------ MODULE MC_ComplexContainer ------------------------
(* All short histories on a complex over few vertices.                      *)
EXTENDS ComplexContainer, TLC, CSV, Json, IOUtils

CONSTANTS V, Weights, Depth

VARIABLES C, prev, hist

vars == <<C, prev, hist>>
Simplices == SUBSET V \ {{}}
Seq0(s) == Descending(s)

Init == C = <<>> /\ prev = <<>> /\ hist = <<>>

Do(op, c) == C' = c /\ prev' = C /\ hist' = Append(hist, op)

Push(s, w)    == Do([op |-> "push", s |-> Seq0(s), w |-> w], PushBack(C, s, w))
Put(k, s, w)  == /\ k <= Len(C)
                 /\ Do([op |-> "replace", k |-> k, s |-> Seq0(s), w |-> w], Replace(C, k, s, w))
Drop(s)       == /\ Closed(C) /\ Has(C, s)
                 /\ Do([op |-> "remove", s |-> Seq0(s)], RemoveCofaces(C, s))
DropOne(s)    == /\ Has(C, s)
                 /\ Do([op |-> "remove1", s |-> Seq0(s)], RemoveOne(C, s))
Complete      == /\ MissingFaces(C) # {}
                 /\ \E w \in Weights :
                      LET q == SetToSeq(MissingFaces(C))
                          D == C \o [k \in 1..Len(q) |-> Item(q[k], w)]
                      IN IsCompletion(C, D) /\ Do([op |-> "faces"], D)
Weigh(mx, ke) == /\ Closed(C) /\ C # <<>>
                 /\ Do([op |-> "weigh", max |-> mx, keep |-> ke], Recalculated(C, mx, ke))
Sort          == /\ Len(C) > 1
                 /\ Do([op |-> "sort", by |-> "data"], SetToSortSeq(ItemsOf(C), DataLess))

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E s \in Simplices, w \in Weights : Push(s, w)
     \/ \E k \in 1..Len(C), s \in Simplices, w \in {CHOOSE x \in Weights : TRUE} : Put(k, s, w)
     \/ \E s \in Simplices : Drop(s) \/ DropOne(s)
     \/ Complete
     \/ \E mx, ke \in BOOLEAN : Weigh(mx, ke)
     \/ Sort

Spec == Init /\ [][Next]_vars

(* Laws *)
NoDuplicates == Distinct(C)
LastOp == IF hist = <<>> THEN "none" ELSE hist[Len(hist)].op
RemoveCloses == LastOp = "remove" => Closed(C)
FacesClose   == LastOp = "faces" => Closed(C) /\ SimplicesOf(prev) \subseteq SimplicesOf(C)
WeighKeeps   == LastOp = "weigh" =>
   /\ SimplicesOf(C) = SimplicesOf(prev) /\ Len(C) = Len(prev)
   /\ \A k \in 1..Len(C) : C[k].s = prev[k].s
   /\ (hist[Len(hist)].max /\ ~hist[Len(hist)].keep) => Monotone(C)
(* A sorted, monotone complex is a filtration; the orders are total. *)
SortFilters  == LastOp = "sort" => IsPermutation(prev, C) /\ SortedBy(C, DataLess) /\ (Monotone(C) => FacesFirst(C))
PushKeeps    == LastOp = "push" => \A k \in 1..Len(prev) : C[k] = prev[k]
Trichotomy   == \A x, y \in ItemsOf(C) : x # y =>
   /\ DataLess(x, y) # DataLess(y, x)
   /\ LexLess(x.s, y.s) # LexLess(y.s, x.s)
   /\ (x.s \subseteq y.s) => LexLess(x.s, y.s)

Export == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.EXPORT)
=============================================================================
