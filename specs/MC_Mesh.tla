------------------------------ MODULE MC_Mesh ------------------------------
(* All ways of adding consistently oriented triangles on few vertices,      *)
(* such that no vertex has faces besides a closed fan.                      *)
EXTENDS Mesh, CSV, Json, IOUtils

CONSTANTS N, MaxFaces

V == 0..(N - 1)

VARIABLE F

MeshOf(G) == [ data |-> [ v \in V |-> v ], faces |-> G ]
(* Triangles start with their smallest vertex. *)
Triangles == { << a, b, c >> : a, b, c \in V }
Candidates == { t \in Triangles : t[1] < t[2] /\ t[1] < t[3] /\ t[2] # t[3] }

Init == F = << >>
Next == /\ Len(F) < MaxFaces
        /\ \E t \in Candidates :
             /\ F = << >> => t = << 0, 1, 2 >>
             /\ F' = Append(F, t)
             /\ Surface(MeshOf(F'))
Spec == Init /\ [][Next]_F

M == MeshOf(F)
Euler == Cardinality(UNION { MeshSeqSet(F[i]) : i \in 1..Len(F) }) - Cardinality(MeshEdges(M)) + Len(F)
Boundary == { e \in AllDirected(F) : << e[2], e[1] >> \notin AllDirected(F) }

(* Boundary edges enter and leave a vertex once per open fan. *)
BoundaryIsCycles == \A v \in V :
  LET O == { e \in Boundary : e[1] = v }
      I == { e \in Boundary : e[2] = v }
      k == Cardinality({ S \in FansOf(M, v) : ~ClosedFan(M, v, S) })
  IN Cardinality(O) = k /\ Cardinality(I) = k
(* A link is a cycle for inner vertices, paths for boundary vertices. *)
LinkShape == \A v \in V :
  LET n == Cardinality(NeighboursOf(M, v))
      f == Cardinality(FacesAt(M, v))
      b == Cardinality({ e \in Boundary : e[1] = v })
  IN n = f + b
(* Neighbours are split by their values *)
Partition == \A v \in V :
  /\ HigherOf(M, v) \cup LowerOf(M, v) = NeighboursOf(M, v)
  /\ HigherOf(M, v) \cap LowerOf(M, v) = {}
(* Each edge belongs to one or two faces; closed surfaces are even. *)
EdgeCount == 2 * Cardinality(MeshEdges(M)) - Cardinality(Boundary) = 3 * Len(F)
Closed == (F # << >> /\ Boundary = {} /\ Cardinality({ C \in MeshComponents(M) : Cardinality(C) > 1 }) = 1) => Euler \in {2, 0}

Export == F # << >> => CSVWrite("%1$s", <<ToJson(F)>>, IOEnv.EXPORT)
=============================================================================
