-------------------------- MODULE Trace_PointCloud --------------------------
EXTENDS PointCloud, StatefulTrace

StartCloud(in) == [ r \in 1..3 |-> NoCloud ]
(* op.r, op.a, op.b are registers 1..3 *)
StepCloud(S, op, res) == [ ok |-> Answers(S, op, res), st |-> After(S, op) ]
=============================================================================
