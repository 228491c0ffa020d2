-------------------------- MODULE FunctionalTrace --------------------------
(* Validates recorded calls against a specification.  Every line of the     *)
(* trace file is one call: its arguments ("in") and its results ("out"), or *)
(* "crash" if the library did not return.  Accept(e) says whether the       *)
(* specification allows the event.  Events are independent of each other,   *)
(* so each one starts its own behaviour: pending, then accepted or rejected. *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Accept(_)

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES traceLine, verdict

vars == <<traceLine, verdict>>

Init == traceLine \in 1..Len(Trace) /\ verdict = "pending"

Returned(e) == "out" \in DOMAIN e

Validate ==
  /\ verdict = "pending"
  /\ verdict' = IF Returned(Trace[traceLine]) /\ Accept(Trace[traceLine])
                THEN "accepted" ELSE "rejected"
  /\ UNCHANGED traceLine

Next == Validate
Spec == Init /\ [][Next]_vars

(* Names every event that is not a step of the specification. *)
Report == verdict = "rejected" => PrintT(<<"REJECTED", traceLine>>)
=============================================================================
