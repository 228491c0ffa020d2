------------------------------ MODULE MC_Dowker ------------------------------
(* All weight matrices of a small size: the completion satisfies the        *)
(* triangle inequality, both complexes are complexes with monotone weights, *)
(* and they have the same homology (Dowker's theorem).                      *)
EXTENDS Witness, TLC, CSV, Json, IOUtils

CONSTANTS N, Entries, MaxR

(* Weights and bound; completion, relation and complexes derived from them *)
VARIABLES W, R, Dm, Pm, Src, Snk
vs == <<W, R, Dm, Pm, Src, Snk>>
Nm == 0..N-1
Init == /\ W \in [1..N -> [1..N -> Entries]] /\ R \in 0..MaxR
        /\ \A i \in 1..N : W[i][i] = 0
        /\ Dm = Completed(W)
        /\ Pm = Admissible(W, R)
        /\ Src = DowkerSource(Pm, Dm, Nm, 0)
        /\ Snk = DowkerSink(Pm, Dm, Nm, 0)
Next == FALSE /\ UNCHANGED vs
Spec == Init /\ [][Next]_vs

Simp(X) == {x.s : x \in X}
TriangleOK == \A i, j, k \in Nm : Dm[<<i, j>>] <= Plus(Dm[<<i, k>>], Dm[<<k, j>>])
Below0 == \A i, j \in Nm : (i # j /\ W[i+1][j+1] > 0) => Dm[<<i, j>>] <= W[i+1][j+1]
Complexes_ == IsComplex(Simp(Src)) /\ IsComplex(Simp(Snk))
MonotoneOK == \A x, y \in Src : x.s \subseteq y.s => x.w <= y.w
Duality == \A d \in 0..2 : Betti(Simp(Src), d) = Betti(Simp(Snk), d)
Once == Cardinality(Simp(Src)) = Cardinality(Src) /\ Cardinality(Simp(Snk)) = Cardinality(Snk)

Export == CSVWrite("%1$s", <<ToJson([W |-> W, R |-> R])>>, IOEnv.EXPORT)
=============================================================================
