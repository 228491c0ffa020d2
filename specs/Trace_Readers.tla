--------------------------- MODULE Trace_Readers ---------------------------
(* Histories of one reader object: every file must be reported as if it     *)
(* were the first one it reads.                                             *)
EXTENDS StatefulTrace, Readers

StartReader(c) == 0
StepReader(st, d, r) == [ok |-> ReadingOK(d, r), st |-> st]
=============================================================================
