------------------------------ MODULE Trace_Sums ------------------------------
EXTENDS Statistics, StatefulTrace

StartSum(in) == SumStart(in.init)
StepSum(st, op, res) ==
  LET next == CASE op.op = "add" -> SumAdd(st, op.v)
                [] op.op = "sub" -> SumAdd(st, -op.v)
                [] op.op = "mul" -> SumMul(st, op.v)
                [] op.op = "div" -> SumDiv(st, op.v)
  IN [ ok |-> SumClose(next, res), st |-> next ]
=============================================================================
