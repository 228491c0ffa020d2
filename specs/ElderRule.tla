----------------------------- MODULE ElderRule -----------------------------
(* Degree-0 persistence: components are born at vertices; an edge that joins *)
(* two components destroys the younger one (the one whose oldest vertex     *)
(* appears later).                                                          *)
EXTENDS Persistence

(* State: comp maps the index of each vertex simplex to the index of the    *)
(* creator of its component; pairs, alive as in Persistence; order and into  *)
(* list, per merge, the edge and the creator merged into.                   *)
NoComponents == [comp |-> [x \in {} |-> 0], pairs |-> {}, alive |-> {}, order |-> <<>>, into |-> <<>>]

ElderStep(F, m, j) ==
  IF Dim(F[j]) = 0
  THEN [m EXCEPT !.comp = Extend(@, j, j), !.alive = @ \cup {j}]
  ELSE IF Dim(F[j]) # 1 THEN m
  ELSE LET vs == {i \in DOMAIN m.comp : F[i] \subseteq F[j]}
           cs == {m.comp[i] : i \in vs} IN
       IF Cardinality(cs) < 2 THEN m
       ELSE LET y == Max(cs)
                o == Min(cs) IN
            [comp  |-> [x \in DOMAIN m.comp |-> IF m.comp[x] = y THEN o ELSE m.comp[x]],
             pairs |-> m.pairs \cup {<<y, j>>},
             alive |-> m.alive \ {y},
             order |-> Append(m.order, j),
             into  |-> Append(m.into, o)]

RECURSIVE ElderFrom(_, _, _)
ElderFrom(F, j, m) == IF j > Len(F) THEN m ELSE ElderFrom(F, j+1, ElderStep(F, m, j))
RunElder(F) == ElderFrom(F, 1, NoComponents)

-----------------------------------------------------------------------------
(* Extended persistence hierarchy (vertex v stands for its creator).        *)
(* crit[c] is the critical point last absorbed by component c.  A creator    *)
(* destroyed with non-zero persistence becomes the child of the component    *)
(* it merges into, or of that component's critical point, provided both     *)
(* critical points are connected in the interlevel set between them.        *)
VertexAt(F, i) == CHOOSE v \in F[i] : TRUE

(* Part of the 1-skeleton with values in [lo, hi]; edges whose end points    *)
(* are outside do not connect anything.                                     *)
Interlevel(F, W, lo, hi) ==
  LET V == {F[i] : i \in {i \in 1..Len(F) : Dim(F[i]) = 0 /\ W[i] >= lo /\ W[i] <= hi}}
      E == {F[i] : i \in {i \in 1..Len(F) : Dim(F[i]) = 1 /\ W[i] >= lo /\ W[i] <= hi}}
  IN V \cup {e \in E : \A v \in e : {v} \in V}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

RECURSIVE HierarchyFrom(_, _, _, _, _, _)
HierarchyFrom(F, W, j, m, crit, acc) ==
  IF j > Len(F) THEN acc
  ELSE LET n == ElderStep(F, m, j)
           crit1 == IF Dim(F[j]) = 0 THEN Extend(crit, j, j) ELSE crit IN
       IF Len(n.order) = Len(m.order) THEN HierarchyFrom(F, W, j+1, n, crit1, acc)
       ELSE
       LET o == n.into[Len(n.into)]
           y == CHOOSE y \in m.alive : <<y, j>> \in n.pairs IN
       IF W[y] = W[j]
       THEN HierarchyFrom(F, W, j+1, n, Extend(crit1, y, o), acc)
       ELSE
       LET a == Min2(crit1[y], crit1[o])     \* older critical simplex
           b == Max2(crit1[y], crit1[o])
           I == Interlevel(F, W, Min2(W[a], W[j]), Max2(W[a], W[j]))
           connected == F[a] \in I /\ F[b] \in I /\ F[b] \subseteq ComponentOf(I, VertexAt(F, a))
           ps == IF connected THEN {VertexAt(F, o), VertexAt(F, crit1[o])} ELSE {VertexAt(F, o)} IN
       HierarchyFrom(F, W, j+1, n, Extend(crit1, o, y),
                     Append(acc, [child |-> VertexAt(F, y), parents |-> ps]))

RunHierarchy(F, W) == HierarchyFrom(F, W, 1, NoComponents, [x \in {} |-> 0], <<>>)
=============================================================================
