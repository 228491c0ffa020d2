---------------------------- MODULE MC_PointCloud ----------------------------
(* All histories of few calls on two registers.                              *)
EXTENDS PointCloud, CSV, Json, IOUtils

CONSTANTS MaxN, MaxD, Values, MaxCalls

R == {1, 2}
Points == UNION { [ 1..d -> Values ] : d \in 1..MaxD }

Calls ==
     { [ op |-> "new", r |-> r, n |-> n, d |-> d ] : r \in R, n \in 0..MaxN, d \in 1..MaxD }
  \cup { [ op |-> "set", r |-> r, i |-> i, x |-> x ] : r \in R, i \in 0..MaxN, x \in Points }
  \cup { [ op |-> o, r |-> r, a |-> a ] : o \in {"copy", "move"}, r \in R, a \in R }
  \cup { [ op |-> "swap", r |-> 1, a |-> 2 ] }
  \cup { [ op |-> "concat", r |-> r, a |-> a, b |-> b ] : r \in R, a \in R, b \in R }

VARIABLES S, history
Init == S = [ r \in R |-> NoCloud ] /\ history = << >>
Call(op) == /\ Len(history) < MaxCalls
            /\ (op.op # "new" => history # << >>)
            /\ S' = After(S, op) /\ history' = Append(history, op)
Next == \E op \in Calls : Call(op)
Spec == Init /\ [][Next]_<< S, history >>

AllWellFormed == \A r \in R : WellFormed(S[r])
(* A call does not influence other clouds; refused calls change nothing. *)
Isolation == [][ LET op == history'[Len(history')] IN
                 /\ \A r \in R : r \notin Touched(op) => S'[r] = S[r]
                 /\ ~Accepts(S, op) => S' = S ]_<< S, history >>
(* Setting a point twice leaves the last one; points at other places stay. *)
LastWrite == [][ LET op == history'[Len(history')] IN
                 (op.op = "set" /\ Accepts(S, op)) =>
                   /\ S'[op.r].pts[op.i + 1] = op.x
                   /\ \A i \in 1..S[op.r].n : i # op.i + 1 => S'[op.r].pts[i] = S[op.r].pts[i] ]_<< S, history >>
Lengths == [][ LET op == history'[Len(history')] IN
               (op.op = "concat" /\ Accepts(S, op)) => S'[op.r].n = S[op.a].n + S[op.b].n ]_<< S, history >>
Export == Len(history) = MaxCalls => CSVWrite("%1$s", <<ToJson(history)>>, IOEnv.EXPORT)
=============================================================================
