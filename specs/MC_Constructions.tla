--------------------------- MODULE MC_Constructions ---------------------------
(* All complexes on few vertices: closure and homology of constructions;     *)
(* all orders of collapsing.                                                 *)
EXTENDS Constructions, Spine, TLC, CSV, Json, IOUtils

CONSTANTS V, MaxDim

(* K is a complex; L is what remains after some collapses of it. *)
VARIABLES K, L

Universe == {s \in SUBSET V \ {{}} : Dim(s) <= MaxDim}
Init == K \in {S \in SUBSET Universe : IsComplex(S) /\ S # {}} /\ L = K
Next == /\ \E p \in Collapses(L) : L' = L \ {p[1], p[2]}
        /\ UNCHANGED K
Spec == Init /\ [][Next]_<<K, L>>

Fresh(n) == Max(V) + n
Reduced(S, d) == IF d = 0 THEN Betti(S, 0) - 1 ELSE Betti(S, d)
Whole == L = K                  \* constructions need to be checked only once
ConeAcyclic == Whole => LET C == ConeOver(K, Fresh(1)) IN
  IsComplex(C) /\ \A d \in 0..DimOf(C) : Reduced(C, d) = 0
SuspensionShift == Whole => LET C == SuspensionOf(K, Fresh(1), Fresh(2)) IN
  IsComplex(C) /\ \A d \in 1..DimOf(C) : Reduced(C, d) = Reduced(K, d-1)
SuspensionConnected == Whole => Betti(SuspensionOf(K, Fresh(1), Fresh(2)), 0) = 1
SkeletonKeeps == Whole => \A k \in 0..DimOf(K) :
  LET S == {s \in K : Dim(s) <= k} IN IsComplex(S) /\ \A d \in 0..k-1 : Betti(S, d) = Betti(K, d)
(* Vertices of the subdivision are sets; homology does not mind. *)
SubdivisionKeeps == Whole => LET S == Subdivision(K) IN
  IsComplex(S) /\ \A d \in 0..DimOf(K)+1 : Betti(S, d) = Betti(K, d)
ChainsOK == Whole => Subdivision(K) = {T \in SUBSET K : T # {} /\ IsChain(T)}

BettiEqual == \A d \in 0..DimOf(K) : Betti(K, d) = Betti(L, d)
CollapseOK == IsComplex(L) /\ L \subseteq K /\ SameHomology(K, L) /\ BettiEqual
(* A pair is admissible until one of its members is removed *)
StaysAdmissible == [][\A p \in Collapses(L) : ({p[1], p[2]} \subseteq L') => p \in Collapses(L')]_<<K, L>>

Export == Whole => CSVWrite("%1$s", <<ToJson(SetToSeq({SetToSeq(s) : s \in K}))>>, IOEnv.EXPORT)
=============================================================================
