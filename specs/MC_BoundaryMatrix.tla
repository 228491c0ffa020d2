------------------------- MODULE MC_BoundaryMatrix -------------------------
(* All histories of matrix operations at small size: the algebra every      *)
(* representation has to implement.                                         *)
EXTENDS BoundaryMatrix, TLC, CSV, Json, IOUtils, SequencesExt

CONSTANTS N, Depth

VARIABLES M, prev, hist

Cols == 0..N-1
vars == <<M, prev, hist>>

Init == M = SetNumColumns(EmptyMatrix, N) /\ prev = M /\ hist = <<>>

Do(op, m) == M' = m /\ prev' = M /\ hist' = Append(hist, op)

Set(j, c)  == Do([op |-> "set", j |-> j, c |-> SetToSeq(c)], SetColumn(M, j, c))
Plus(s, t) == Do([op |-> "add", s |-> s, t |-> t], AddColumns(M, s, t))
Clear(j)   == Do([op |-> "clear", j |-> j], ClearColumn(M, j))
Dim(j, d)  == Do([op |-> "dim", j |-> j, d |-> d], SetDimension(M, j, d))
Flip       == Do([op |-> "dual"], Dual(M))

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E j \in Cols : \E c \in SUBSET Cols : Set(j, c)
     \/ \E s, t \in Cols : Plus(s, t)
     \/ \E j \in Cols : Clear(j)
     \/ \E j \in Cols : \E d \in 0..2 : Dim(j, d)
     \/ Flip

Spec == Init /\ [][Next]_vars

(* Laws *)
Square == IsSquare(M)
AddTwice == \A s, t \in Cols : s # t => AddColumns(AddColumns(M, s, t), s, t) = M
AddSelf == \A s \in Cols : ColumnOf(AddColumns(M, s, s), s) = {}
AddCommutes == \A s, t, u \in Cols : (u # s /\ u # t) =>
   AddColumns(AddColumns(M, s, u), t, u) = AddColumns(AddColumns(M, t, u), s, u)
Local == \A s, t, u \in Cols : u # t =>
   ColumnOf(AddColumns(M, s, t), u) = ColumnOf(M, u) /\ DimensionOf(AddColumns(M, s, t), u) = DimensionOf(M, u)
DualTwice == Dual(Dual(M)).cols = M.cols /\ Dual(Dual(M)).dual = M.dual
DualEntries == \A i, j \in Cols : (i \in ColumnOf(M, j)) <=> ((N - 1 - j) \in ColumnOf(Dual(M), N - 1 - i))
LowCancels == \A s, t \in Cols :
   (s # t /\ Low(M, s) >= 0 /\ Low(M, s) = Low(M, t)) => Low(AddColumns(M, s, t), t) < Low(M, t)

(* In simulation mode complete histories become inputs. *)
Export == Len(hist) = Depth => CSVWrite("%1$s", <<ToJson(hist)>>, IOEnv.EXPORT)
=============================================================================
