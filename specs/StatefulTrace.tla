--------------------------- MODULE StatefulTrace ---------------------------
(* Validates recorded histories of calls against a state machine.  Every    *)
(* line of the trace file is one history: in.ops is the sequence of calls,  *)
(* out[k] the observed result of the k-th one.  Start(in) is the abstract    *)
(* state before the first call; Step(st, op, res) yields a record with       *)
(* fields ok (the specification allows result res for op in state st) and   *)
(* st (the state after the call).                                            *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Start(_), Step(_, _, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES traceLine, tracePos, modelState, verdict

vars == <<traceLine, tracePos, modelState, verdict>>

Init == /\ traceLine \in 1..Len(Trace)
        /\ tracePos = 1
        /\ modelState = Start(Trace[traceLine].in)
        /\ verdict = "running"

Returned(e) == "out" \in DOMAIN e

Validate ==
  LET e == Trace[traceLine] IN
  /\ verdict = "running"
  /\ UNCHANGED traceLine
  /\ IF ~Returned(e) THEN verdict' = "rejected" /\ UNCHANGED <<tracePos, modelState>>
     ELSE IF tracePos > Len(e.in.ops)
     THEN verdict' = "accepted" /\ UNCHANGED <<tracePos, modelState>>
     ELSE IF tracePos > Len(e.out)
     THEN verdict' = "rejected" /\ UNCHANGED <<tracePos, modelState>>
     ELSE LET r == Step(modelState, e.in.ops[tracePos], e.out[tracePos]) IN
          IF r.ok THEN modelState' = r.st /\ tracePos' = tracePos + 1 /\ UNCHANGED verdict
                  ELSE verdict' = "rejected" /\ UNCHANGED <<tracePos, modelState>>

Next == Validate
Spec == Init /\ [][Next]_vars

Report == verdict = "rejected" => PrintT(<<"REJECTED", traceLine, tracePos>>)
=============================================================================
