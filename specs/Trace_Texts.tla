----------------------------- MODULE Trace_Texts -----------------------------
EXTENDS Texts, FunctionalTrace

AcceptText(e) ==
  LET i == e.in o == e.out IN
  CASE i.k = "json"    -> /\ Len(o.Ds) = Len(i.Ds)
                          /\ \A j \in 1..Len(i.Ds) : SameDiagram(i.Ds[j], o.Ds[j])
    [] i.k = "diagram" -> SameBag(i.pts, o.pts)
    [] i.k = "cloud"   -> o.d = i.d /\ o.equal /\ SameCloud(i.pts, o.pts)
    [] i.k = "gml"     -> /\ SameGraph(i.G, o.G)
                          /\ i.labelled => \A j \in 1..Len(i.G.V) : o.labels[j] = i.labels[j]
    [] i.k = "drawing" -> Drawn(i.G, i.P, i.labelled, o)
    [] i.k = "picture" -> Pictured(i.G, i.P, IF i.fill THEN i.T ELSE << >>, o)
    [] i.k = "refusal" -> o.refused
    (* Texts that have been written by others *)
    [] i.k = "rdiagram" -> SameBag(Values(i.doc), o.pts)
    [] i.k = "rcloud"   -> SameCloud(Values(i.doc), o.pts)
    [] i.k = "rmatrix"  -> LET V == Values(i.doc) IN
                           /\ o.n = Len(V)
                           /\ Len(o.columns) = Len(V)
                           /\ \A j \in 1..Len(V) : ColumnOf(V[j], o.columns[j])
=============================================================================
