--------------------------- MODULE MC_Persistence ---------------------------
(* Grows filtrations one simplex at a time and checks that the pairing      *)
(* maintained by the machine is the persistent homology of the filtration.  *)
EXTENDS ElderRule, TLC, CSV, Json, IOUtils

CONSTANTS Vertices, MaxDim, MaxLen

VARIABLES F, st

Universe == {s \in SUBSET Vertices \ {{}} : Dim(s) <= MaxDim}

Init == F = <<>> /\ st = NoColumns

Add(s) ==
  /\ Len(F) < MaxLen
  /\ s \notin SetOf(F)
  /\ Facets(s) \subseteq SetOf(F)
  /\ F' = Append(F, s)
  /\ st' = AddColumn(st, Len(F) + 1, {Index(F)[f] : f \in Facets(s)})

Next == \E s \in Universe : Add(s)
Spec == Init /\ [][Next]_<<F, st>>

-----------------------------------------------------------------------------
(* Definitions that do not use matrix reduction: count chains. *)
K == SetOf(F)
Cycles(S, d)     == {c \in SUBSET SimplicesOfDim(S, d) : Boundary(c) = {}}
Boundaries(S, d) == {Boundary(c) : c \in SUBSET SimplicesOfDim(S, d+1)}
RECURSIVE Log2(_)
Log2(n) == IF n <= 1 THEN 0 ELSE 1 + Log2(n \div 2)
BettiByChains(S, d) ==
  Log2(Cardinality(Cycles(S, d))) - Log2(Cardinality(Boundaries(S, d)))

(* Rank of the map H_d(F[1..i]) -> H_d(F[1..j]) induced by inclusion *)
Prefix(i) == {F[k] : k \in 1..i}
PersistentBetti(i, j, d) ==
  LET Z == Cycles(Prefix(i), d)
      B == Boundaries(Prefix(j), d)
  IN Log2(Cardinality(Z)) - Log2(Cardinality(Z \cap B))

TypeOK == IsFiltration(F) /\ IsComplex(K)

(* Every simplex has exactly one role. *)
RolesOK ==
  LET cs == {p[1] : p \in st.pairs}
      ds == {p[2] : p \in st.pairs} IN
  /\ cs \cup ds \cup st.creators = 1..Len(F)
  /\ cs \cap ds = {} /\ cs \cap st.creators = {} /\ ds \cap st.creators = {}
  /\ Cardinality(cs) = Cardinality(st.pairs) /\ Cardinality(ds) = Cardinality(st.pairs)
  /\ \A p \in st.pairs : p[1] < p[2] /\ Dim(F[p[2]]) = Dim(F[p[1]]) + 1

(* Betti numbers of the whole complex *)
BettiOK == \A d \in 0..MaxDim :
  LET e == Cardinality({i \in st.creators : Dim(F[i]) = d}) IN
  e = BettiByChains(K, d) /\ e = Betti(K, d)

(* All persistent Betti numbers: classes alive at i that are alive at j *)
PersistentOK == \A d \in 0..MaxDim : \A i, j \in 0..Len(F) :
  i <= j => PersistentBetti(i, j, d) =
    Cardinality({c \in 1..i : Dim(F[c]) = d /\
       (c \in st.creators \/ \E p \in st.pairs : p[1] = c /\ p[2] > j)})

(* Duality: reducing the anti-transpose gives the same pairing *)
DualOK ==
  LET n == Len(F)
      dual == MatrixPairing(Dualize(BoundaryColumns(F))) IN
  /\ {<<n + 1 - p[2], n + 1 - p[1]>> : p \in dual.pairs} = st.pairs
  /\ {n + 1 - c : c \in dual.creators} = st.creators

EulerOK == Euler(K) = FoldSet(LAMBDA d, acc : acc + (IF d % 2 = 0 THEN 1 ELSE -1) * Betti(K, d), 0, 0..MaxDim)

(* Degree 0 is the elder rule. *)
ElderOK ==
  LET m == RunElder(F) IN
  /\ m.pairs = {p \in st.pairs : Dim(F[p[1]]) = 0}
  /\ m.alive = {i \in st.creators : Dim(F[i]) = 0}

Incremental == Pairing(F) = st

(* Each explored filtration becomes an input for the implementation. *)
AsLists == [k \in 1..Len(F) |-> SetToSortSeq(F[k], <)]
Export == CSVWrite("%1$s", <<ToJson(AsLists)>>, IOEnv.EXPORT)
=============================================================================
