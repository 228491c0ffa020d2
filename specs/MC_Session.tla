----------------------------- MODULE MC_Session -----------------------------
(* All short sessions: one complex is built, ordered and examined; laws that  *)
(* must hold for what it shows.                                               *)
EXTENDS Session, Json, CSV, IOUtils, TLC

CONSTANTS Vertices, Depth

Weight(s) == 2 * Max(s) + 2 * Dim(s)
VARIABLES st, log

Simplices == SUBSET Vertices \ {{}}
Start == st = Fresh /\ log = <<>>

Call(op, new) == st' = new /\ log' = Append(log, op)
AppendOne == \E s \in Simplices :
  Call([op |-> "append", r |-> 1, item |-> [s |-> SetToSeq(s), w |-> Weight(s), form |-> "simplex"]],
       [st EXCEPT !.K[1] = PushBack(@, s, Weight(s))])
SortIt == st.K[1] # <<>> /\
  Call([op |-> "sortby", r |-> 1, by |-> "data"], [st EXCEPT !.K[1] = SetToSortSeq(ItemsOf(@), DataLess)])
Examine == st.K[1] # <<>> /\ IsOrdered(st.K[1]) /\
  LET ds == Diagrams(st.K[1]) IN
  \E i \in 1..Len(ds) :
    Call([op |-> "diagrams", r |-> 1, s |-> 1, i |-> i], [st EXCEPT !.D[1] = [dim |-> ds[i].dim, pts |-> ds[i].pts]])
Count == Call([op |-> "pif", r |-> 1, s |-> 1, form |-> "class"], [st EXCEPT !.F[1] = Indicator(st.D[1])])
Double == Call([op |-> "add", r |-> 2, s |-> 1, u |-> 1], [st EXCEPT !.F[2] = Both(st.F[1], st.F[1], 1)])

Next == Len(log) < Depth /\ (AppendOne \/ SortIt \/ Examine \/ Count \/ Double)
Spec == Start /\ [][Next]_<<st, log>>

Consistent == Distinct(st.K[1])
(* The weights respect faces, so ordering a closed complex gives a filtration *)
Filtered == Closed(st.K[1]) => IsOrdered(SetToSortSeq(ItemsOf(st.K[1]), DataLess))
(* Infinite points count holes, except in the top dimension *)
Holes == (Closed(st.K[1]) /\ IsOrdered(st.K[1]) /\ st.K[1] # <<>>) =>
  LET S == SimplicesOf(st.K[1])
      ds == Diagrams(st.K[1])
  IN \A k \in 1..Len(ds) : ds[k].dim < DimOf(S) \/ DimOf(S) = 0 =>
       ds[k].dim = DimOf(S) \/ Cardinality({j \in 1..Len(ds[k].pts) : ds[k].pts[j][2] = Forever}) = Betti(S, ds[k].dim)
(* The value far away is the number of infinite points *)
FarAway == \A r \in 1..2 : Indicator(st.D[r]).val[Cells] = Cardinality({j \in 1..Len(st.D[r].pts) : st.D[r].pts[j][2] = Forever})
Cancels == Both(st.F[1], st.F[1], -1).val = NoFunction.val

Export == (Len(log) = Depth /\ \E k \in 1..Len(log) : log[k].op # "append") => CSVWrite("%1$s", <<ToJson(log)>>, IOEnv.EXPORT)
=============================================================================
