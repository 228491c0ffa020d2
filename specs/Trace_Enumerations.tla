-------------------------- MODULE Trace_Enumerations --------------------------
EXTENDS Enumerations, FunctionalTrace

AcceptEnumeration(e) ==
  IF e.in.k = "count" THEN Counted(e.in.kind, e.in.d1, e.in.d2, e.in.top, e.out.count)
  ELSE /\ Enumerated(e.in.kind, e.in.x, e.in.r, e.out.visits, e.in.stop, e.out.after)
       /\ e.out.calls = Len(e.out.visits)
       /\ e.out.count = Expected(e.in.kind, Len(e.in.x), e.in.r)
=============================================================================
