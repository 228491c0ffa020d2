------------------------- MODULE Trace_Persistence -------------------------
(* Validates recorded persistent homology computations.                     *)
EXTENDS Persistence, FunctionalTrace

FiltrationOf(in) == [k \in 1..Len(in.K) |-> SetOf(in.K[k])]

(* Reported diagrams: sequence of [dim, pts, inf] *)
DiagramsOK(F, W, pr, all, ds) ==
  LET dims == DiagramDimensions(F, pr, all) IN
  /\ Len(ds) = Cardinality(dims)
  /\ \A k \in 1..Len(ds) :
       /\ ds[k].dim \in dims
       /\ k > 1 => ds[k-1].dim < ds[k].dim
       /\ BagOf(ds[k].pts) = FinitePoints(F, W, pr, ds[k].dim)
       /\ BagOf(ds[k].inf) = InfinitePoints(F, W, pr, all, ds[k].dim)

AcceptDiagrams(e) ==
  LET F == FiltrationOf(e.in)
      pr == Pairing(F) IN
  \A k \in 1..Len(e.out) :
     DiagramsOK(F, e.in.W, pr, e.out[k].all, e.out[k].dgms)

(* Reported pairing: sorted sequence of zero-based pairs; -1 if unpaired *)
ExpectedPairing(F, pr, all, bound) ==
  {<<p[1]-1, p[2]-1>> : p \in {p \in pr.pairs : p[1]-1 < bound}} \cup
  {<<i-1, -1>> : i \in {i \in ReportedCreators(F, pr, all) : i-1 < bound}}

PairingOK(F, pr, all, bound, q) ==
  LET ex == ExpectedPairing(F, pr, all, bound) IN
  SetOf(q) = ex /\ Len(q) = Cardinality(ex)

Unbounded == 1000000000

(* All variants on one filtration *)
AcceptVariants(e) ==
  LET F == FiltrationOf(e.in)
      pr == Pairing(F) IN
  \A k \in 1..Len(e.out) :
     LET v == e.out[k] IN
     /\ PairingOK(F, pr, v.all, IF v.max < 0 THEN Unbounded ELSE v.max, v.pairing)
     /\ "dgms" \in DOMAIN v => DiagramsOK(F, e.in.W, pr, v.all, v.dgms)

(* Large inputs: variants are compared with each other only *)
AcceptAgreement(e) ==
  \A k \in 1..Len(e.out) :
     /\ e.out[k].hash = e.out[1].hash
     /\ e.out[k].dhash = e.out[1].dhash
=============================================================================
