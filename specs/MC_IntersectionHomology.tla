---------------------- MODULE MC_IntersectionHomology ----------------------
(* Grows filtrations whose simplices are proper or improper in any way and   *)
(* compares the restricted pairing with the homology of allowable chains.    *)
EXTENDS IntersectionHomology, TLC, CSV, Json, IOUtils

CONSTANTS Vertices, MaxDim, MaxLen

VARIABLES F, proper

Universe == {s \in SUBSET Vertices \ {{}} : Dim(s) <= MaxDim}
Init == F = <<>> /\ proper = {}
Add(s, good) ==
  /\ Len(F) < MaxLen /\ s \notin SetOf(F) /\ Facets(s) \subseteq SetOf(F)
  /\ F' = Append(F, s)
  /\ proper' = IF good THEN proper \cup {s} ELSE proper
Next == \E s \in Universe, good \in BOOLEAN : Add(s, good)
Spec == Init /\ [][Next]_<<F, proper>>

RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)

(* Chains of proper simplices among the first i of the order q *)
P == SelectSeq(F, LAMBDA s : s \in proper)
Chains(i, d) == {c \in SUBSET {P[k] : k \in {m \in 1..i : Dim(P[m]) = d}} : Boundary(c) \subseteq proper}
CyclesOf(i, d) == {c \in Chains(i, d) : Boundary(c) = {}}
BoundariesOf(j, d) == {Boundary(c) : c \in Chains(j, d+1)}

RestrictedOK ==
  LET st == RestrictedPairing(F, proper) IN
  \A d \in 0..MaxDim : \A i, j \in 0..Len(P) : i <= j =>
    Log2(Cardinality(CyclesOf(i, d))) - Log2(Cardinality(CyclesOf(i, d) \cap BoundariesOf(j, d))) =
    Cardinality({c \in 1..i : Dim(P[c]) = d /\
       (c \in st.creators \/ \E q \in st.pairs : q[1] = c /\ q[2] > j)})

(* Every proper simplex has at most one role *)
RolesOK ==
  LET st == RestrictedPairing(F, proper)
      a == {q[1] : q \in st.pairs}  b == {q[2] : q \in st.pairs}
  IN a \cap b = {} /\ a \cap st.creators = {} /\ b \cap st.creators = {}

(* If everything is proper this is ordinary persistent homology *)
OrdinaryOK == proper = SetOf(F) =>
  LET st == RestrictedPairing(F, proper) IN st.pairs = Pairing(F).pairs /\ st.creators = Pairing(F).creators
=============================================================================
