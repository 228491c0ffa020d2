---------------------------- MODULE MC_Containers ----------------------------
(* Histories of a pairing; small functions *)
EXTENDS Containers, CSV, Json, IOUtils

CONSTANTS MaxOps, Indices
VARIABLES P, ops
vars == << P, ops >>
Record(o) == ops' = Append(ops, o)
Init == P = << >> /\ ops = << >>
Next ==
  /\ Len(ops) < MaxOps
  /\ \/ \E c \in Indices : \E d \in Indices \union {-1} :
          P' = Append(P, << c, d >>) /\ Record([ op |-> "add", r |-> 1, c |-> c, d |-> d ])
     \/ \E a \in 0..Len(P) - 1 : \E b \in a..Len(P) : P' = Without(P, a, b) /\ Record([ op |-> "erase", r |-> 1, a |-> a, b |-> b ])
     \/ P' = SortedPairs(P) /\ Record([ op |-> "sort", r |-> 1 ])
Spec == Init /\ [][Next]_vars

FindOK == \A i \in 1..Len(P) : LET k == FindPair(P, P[i][1], P[i][2]) IN k \in 0..(i - 1) /\ P[k + 1] = P[i] /\ FindCreator(P, P[i][1]) <= k
SortOK == LET S == SortedPairs(P) IN /\ Len(S) = Len(P) /\ Range(S) = Range(P) /\ \A i \in 1..Len(S) - 1 : ~Before(S[i + 1], S[i])
(* Every component but the global minimum is paired; equal numbers of local   *)
(* minima and maxima between them.                                            *)
Function == [ i \in 1..Len(P) |-> 2 * P[i][1] + P[i][2] ]
Levels == Range(Function)
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Multiplicity(Function, x[1], x[2]) + Total(S \ {x})
PairsOK == Len(P) > 0 =>
  /\ \A b, d \in Levels : b < d => Multiplicity(Function, b, d) >= 0
  /\ (\A i \in 1..Len(P) - 1 : Function[i] # Function[i + 1]) =>
       Total({ x \in Levels \X Levels : x[1] < x[2] })
         = Cardinality({ i \in 2..Len(P) - 1 : Function[i] > Function[i - 1] /\ Function[i] > Function[i + 1] })
Export == CSVWrite("%1$s", <<ToJson(ops)>>, IOEnv.EXPORT)
=============================================================================
