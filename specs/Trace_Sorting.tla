---------------------------- MODULE Trace_Sorting ----------------------------
EXTENDS ComplexContainer, FunctionalTrace

(* Sorting in isolation: the documented order, faces first, and the same    *)
(* result no matter how the simplices were arranged before.                 *)
AcceptSort(e) ==
  LET C == Content(e.in.items)
      D == Content(e.out.items)
      f(v) == ValueOf(e.in.f, v)
  IN /\ IsPermutation(C, D)
     /\ Content(e.out.again) = D
     /\ CASE e.in.by = "data"    -> SortedBy(D, DataLess)    /\ (Monotone(C) => FacesFirst(D))
          [] e.in.by = "greater" -> SortedBy(D, DataGreater)
          [] e.in.by = "lower"   -> SortedBy(D, LAMBDA x, y : LowerLess(f, x, y)) /\ FacesFirst(D)
          [] e.in.by = "upper"   -> SortedBy(D, LAMBDA x, y : UpperLess(f, x, y)) /\ FacesFirst(D)
=============================================================================
