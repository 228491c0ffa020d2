----------------------------- MODULE MC_Diagrams -----------------------------
(* Histories of two diagrams; laws of the operations on multisets; every    *)
(* history of full length is exported.                                      *)
EXTENDS Diagrams, TLC, CSV, Json, IOUtils

CONSTANT MaxLen

Points == {<<1, 1>>, <<2, 5>>, <<2, Infinity>>}

VARIABLES D, history

Regs == {1, 2}
Init == D = [r \in Regs |-> EmptyBag] /\ history = <<>>

Do(r, b, op) == D' = [D EXCEPT ![r] = b] /\ history' = Append(history, op)
Next == /\ Len(history) < MaxLen
        /\ \E r \in Regs :
             \/ \E p \in Points : IF Unpaired(p)
                    THEN Do(r, Merged(D[r], One(p)), [op |-> "unp", r |-> r, x |-> p[1]])
                    ELSE Do(r, Merged(D[r], One(p)), [op |-> "add", r |-> r, x |-> p[1], y |-> p[2]])
             \/ Do(r, Merged(D[r], D[3-r]), [op |-> "merge", r |-> r, s |-> 3-r])
             \/ Do(r, WithoutDiagonal(D[r]), [op |-> "rdiag", r |-> r])
             \/ Do(r, WithoutUnpaired(D[r]), [op |-> "runp", r |-> r])
             \/ Do(r, WithoutDuplicates(D[r]), [op |-> "rdup", r |-> r])
             \/ Do(r, D[3-r], [op |-> "copy", r |-> r, s |-> 3-r])
Spec == Init /\ [][Next]_<<D, history>>

LawsOK == \A r \in Regs : LET b == D[r] IN
  /\ WithoutDiagonal(WithoutUnpaired(b)) = WithoutUnpaired(WithoutDiagonal(b))
  /\ WithoutDiagonal(WithoutDuplicates(b)) = WithoutDuplicates(WithoutDiagonal(b))
  /\ WithoutDuplicates(WithoutDuplicates(b)) = WithoutDuplicates(b)
  /\ BettiOf(WithoutUnpaired(b)) = 0
  /\ BettiOf(Merged(b, D[3-r])) = BettiOf(b) + BettiOf(D[3-r])
  /\ SizeOf(Merged(b, D[3-r])) = SizeOf(b) + SizeOf(D[3-r])
  /\ Merged(b, D[3-r]) = Merged(D[3-r], b)
  /\ WithoutDiagonal(Merged(b, D[3-r])) = Merged(WithoutDiagonal(b), WithoutDiagonal(D[3-r]))
  /\ SizeOf(b) = BettiOf(b) + SizeOf(WithoutUnpaired(b))
  /\ \A p \in DOMAIN b : Minus1(Merged(b, One(p)), p) = b

Export == Len(history) = MaxLen => CSVWrite("%1$s", <<ToJson(history)>>, IOEnv.EXPORT)
=============================================================================
