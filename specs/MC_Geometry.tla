----------------------------- MODULE MC_Geometry -----------------------------
(* All small planar point sets: Cech complexes are complexes, grow with the  *)
(* radius and lie between Rips complexes; skeletons shrink with beta.        *)
EXTENDS Geometry, TLC, CSV, Json, IOUtils

CONSTANTS Grid, N, MaxR

VARIABLES pts, R
Init == pts \in [1..N -> {<<x, y>> : x, y \in Grid}] /\ R \in 1..MaxR
        /\ \A i, j \in 1..N : i < j => pts[i] # pts[j]
Next == FALSE /\ UNCHANGED <<pts, R>>
Spec == Init /\ [][Next]_<<pts, R>>

V == 0..N-1
Cech(r) == {s \in SUBSET V : s # {} /\ Fits(pts, s, r)}
CechIsComplex == IsComplex(Cech(R))
CechGrows == Cech(R) \subseteq Cech(R + 1)
(* Jung: a planar set of diameter D fits into a ball of diameter 2D/sqrt(3) *)
InRips == \A s \in Cech(R) : \A i, j \in s : Sq(pts[i+1], pts[j+1]) <= R * R
Jung == \A s \in SUBSET V : (s # {} /\ \A i, j \in s : 4 * Sq(pts[i+1], pts[j+1]) <= 3 * R * R) => s \in Cech(R)
BetaShrinks == \A b \in 2..5, i, j \in V : (i # j /\ Blocked(pts, b, 0, i, j)) => Blocked(pts, b + 1, 0, i, j)
BetaSymmetric == \A b \in 2..6, i, j \in V : i # j =>
   (Blocked(pts, b, 0, i, j) <=> Blocked(pts, b, 0, j, i)) /\ (Clear(pts, b, 0, i, j) <=> Clear(pts, b, 0, j, i))
(* A hair decides, and lies between the regions of beta and the next one *)
Hairs == \A b \in 2..5, i, j \in V : i # j =>
   /\ \A h \in {-1, 1} : Blocked(pts, b, h, i, j) <=> ~Clear(pts, b, h, i, j)
   /\ Blocked(pts, b, -1, i, j) => Blocked(pts, b, 1, i, j)
   /\ Blocked(pts, b, 1, i, j) => Blocked(pts, b + 1, -1, i, j)
(* b = 2 is the Gabriel graph: the region is the diametral ball *)
Gabriel == \A i, j, r \in V : (i # j /\ r # i /\ r # j) =>
   (Inside(pts[i+1], pts[j+1], 2, 0, pts[r+1]) <=>
      Sq(pts[i+1], pts[r+1]) + Sq(pts[j+1], pts[r+1]) < Sq(pts[i+1], pts[j+1]))
(* b = 4 is the relative neighbourhood graph *)
Relative == \A i, j, r \in V : (i # j /\ r # i /\ r # j) =>
   (Inside(pts[i+1], pts[j+1], 4, 0, pts[r+1]) <=>
      (Sq(pts[i+1], pts[r+1]) < Sq(pts[i+1], pts[j+1]) /\ Sq(pts[j+1], pts[r+1]) < Sq(pts[i+1], pts[j+1])))

Export == CSVWrite("%1$s", <<ToJson([pts |-> pts, R |-> R])>>, IOEnv.EXPORT)
=============================================================================
