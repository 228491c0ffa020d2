----------------------------- MODULE Trace_Mesh -----------------------------
EXTENDS Mesh, StatefulTrace

Add(M, id, x) == [ M EXCEPT !.data = (id :> x) @@ M.data ]

StartMesh(in) == EmptyMesh

(* vertex: res.new lists the vertices that have been added by the call;     *)
(* an identifier that is in use is refused.                                  *)
StepMesh(M, op, res) ==
  CASE op.op = "vertex" ->
         IF op.id >= 0 /\ op.id \in MeshVertices(M)
         THEN [ ok |-> res.exc, st |-> M ]
         ELSE [ ok |-> /\ ~res.exc /\ Len(res.new) = 1
                       /\ res.new[1] \notin MeshVertices(M)
                       /\ op.id >= 0 => res.new[1] = op.id,
                st |-> IF res.exc \/ Len(res.new) # 1 THEN M ELSE Add(M, res.new[1], op.x) ]
    [] op.op = "face"  -> [ ok |-> TRUE, st |-> [ M EXCEPT !.faces = Append(M.faces, op.vs) ] ]
    [] op.op = "query" -> [ ok |-> MeshReported(M, res), st |-> M ]
=============================================================================
