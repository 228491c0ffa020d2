---------------------------- MODULE Constructions ----------------------------
(* Complexes built from complexes: skeleta, filters, cones, suspensions and *)
(* barycentric subdivisions.                                                *)
EXTENDS ComplexContainer

SkeletonOf(C, k)      == SelectSeq(C, LAMBDA x : Dim(x.s) <= k)
Filtered(C, keep(_))  == SelectSeq(C, keep)

Join(S, c)     == {{c}} \cup {s \cup {c} : s \in S}
ConeOver(S, c) == S \cup Join(S, c)
SuspensionOf(S, a, b) == S \cup Join(S, a) \cup Join(S, b)

(* The barycentric subdivision: its vertices are simplices, its simplices    *)
(* are chains of simplices.                                                  *)
IsChain(T) == \A a, b \in T : a \subseteq b \/ b \subseteq a
RECURSIVE ChainsBelow(_, _)
ChainsBelow(S, s) ==         \* chains with largest element s
  {{s}} \cup UNION {{c \cup {s} : c \in ChainsBelow(S, t)} : t \in {x \in S : x \subseteq s /\ x # s}}
Subdivision(S) == UNION {ChainsBelow(S, s) : s \in S}

(* Names for the vertices of a subdivision: original vertices keep theirs;   *)
(* a new vertex stands for the simplex spanned by the original vertices it   *)
(* is connected to.                                                          *)
Barycentre(S, D, v) ==
  IF v \in VerticesOf(S) THEN {v}
  ELSE {u \in VerticesOf(S) : {u, v} \in SimplicesOf(D)}
=============================================================================
