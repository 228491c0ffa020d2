-------------------------------- MODULE Mesh --------------------------------
(* Oriented surface meshes: vertices with a value, faces given by their     *)
(* vertices in counter-clockwise order.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MeshSeqSet(s) == { s[i] : i \in 1..Len(s) }
MeshNext(f, i) == f[IF i = Len(f) THEN 1 ELSE i + 1]
DirectedEdges(f) == { << f[i], MeshNext(f, i) >> : i \in 1..Len(f) }

(* The faces as cyclic sequences: every rotation of a face is the same one. *)
RotateTo(f, k) == [ i \in 1..Len(f) |-> f[((i + k - 2) % Len(f)) + 1] ]
SameFace(f, g) == Len(f) = Len(g) /\ \E k \in 1..Len(f) : RotateTo(f, k) = g

(* A mesh is a record: data (value per vertex), faces (sequence). *)
EmptyMesh == [ data |-> << >>, faces |-> << >> ]
MeshVertices(M) == DOMAIN M.data
AllDirected(F) == UNION { DirectedEdges(F[i]) : i \in 1..Len(F) }
MeshEdges(M) == { {e[1], e[2]} : e \in AllDirected(M.faces) }
NeighboursOf(M, v) == { w \in MeshVertices(M) : w # v /\ {v, w} \in MeshEdges(M) }
HigherOf(M, v) == { w \in NeighboursOf(M, v) : M.data[w] > M.data[v] }
LowerOf(M, v)  == { w \in NeighboursOf(M, v) : M.data[w] < M.data[v] }
FacesAt(M, v) == { i \in 1..Len(M.faces) : v \in MeshSeqSet(M.faces[i]) }
StarVertices(M, v) == UNION { MeshSeqSet(M.faces[i]) : i \in FacesAt(M, v) }

RECURSIVE Closure(_, _)
Closure(E, S) ==
  LET T == S \cup UNION { e \in E : e \cap S # {} } IN IF T = S THEN S ELSE Closure(E, T)
MeshComponents(M) == { Closure(MeshEdges(M), {v}) : v \in MeshVertices(M) }

(* Pairs <<a, b>> such that the face at v enters v from b and leaves to a *)
Corners(M, v) ==
  { << MeshNext(M.faces[i], CHOOSE k \in 1..Len(M.faces[i]) : M.faces[i][k] = v),
       LET f == M.faces[i] k == CHOOSE j \in 1..Len(f) : f[j] = v IN f[IF k = 1 THEN Len(f) ELSE k - 1] >>
    : i \in FacesAt(M, v) }

(* The faces at v form fans: sets of faces connected by edges at v. Either  *)
(* all fans are open (v lies on the boundary), or there is just one, closed *)
(* fan (v is an inner vertex).                                              *)
CornerEdges(M, v) == { {c[1], c[2]} : c \in Corners(M, v) }
FansOf(M, v) == { Closure(CornerEdges(M, v), {w}) : w \in UNION CornerEdges(M, v) }
ClosedFan(M, v, S) == \A w \in S : { << v, w >>, << w, v >> } \subseteq AllDirected(M.faces)
Fans(M, v) == \A S \in FansOf(M, v) : ClosedFan(M, v, S) => Cardinality(FansOf(M, v)) = 1

(* Faces may be added if no directed edge is used twice. *)
Consistent(F) == \A i, j \in 1..Len(F) : i # j => DirectedEdges(F[i]) \cap DirectedEdges(F[j]) = {}
Surface(M) == Consistent(M.faces) /\ \A v \in MeshVertices(M) : Fans(M, v)

------------------------------------------------------------------------------
(* What the mesh reports *)

NoRepeats(s) == Cardinality(MeshSeqSet(s)) = Len(s)

FacesReported(F, R) ==
  /\ Len(R) = Len(F)
  /\ \A i \in 1..Len(F) : \E j \in 1..Len(R) : SameFace(F[i], R[j])
  /\ \A j \in 1..Len(R) : \E i \in 1..Len(F) : SameFace(F[i], R[j])

(* The link lists the neighbours around the vertex: every corner appears as *)
(* two consecutive entries (cyclically).                                    *)
LinkReported(M, v, L) ==
  /\ NoRepeats(L) /\ MeshSeqSet(L) = NeighboursOf(M, v)
  /\ LET P == { << L[i], MeshNext(L, i) >> : i \in 1..Len(L) } IN
     Len(L) >= 3 => Corners(M, v) \subseteq P

VertexReported(M, q) ==
  LET v == q.v IN
  /\ q.data = M.data[v]
  /\ NoRepeats(q.higher) /\ MeshSeqSet(q.higher) = HigherOf(M, v)
  /\ NoRepeats(q.lower) /\ MeshSeqSet(q.lower) = LowerOf(M, v)
  /\ LinkReported(M, v, q.link)
  /\ NoRepeats(q.adjacent) /\ MeshSeqSet(q.adjacent) = NeighboursOf(M, v)
  /\ NoRepeats(q.sv) /\ MeshSeqSet(q.sv) = StarVertices(M, v)
  /\ FacesReported(LET At(f) == v \in MeshSeqSet(f) IN SelectSeq(M.faces, At), q.sf)

MeshReported(M, r) ==
  /\ NoRepeats(r.vertices) /\ MeshSeqSet(r.vertices) = MeshVertices(M)
  /\ r.nv = Cardinality(MeshVertices(M))
  /\ FacesReported(M.faces, r.faces)
  /\ r.nf = Len(M.faces)
  /\ r.nc = Cardinality(MeshComponents(M))
  /\ Len(r.at) = Cardinality(MeshVertices(M))
  /\ { r.at[i].v : i \in 1..Len(r.at) } = MeshVertices(M)
  /\ \A i \in 1..Len(r.at) : VertexReported(M, r.at[i])
=============================================================================
