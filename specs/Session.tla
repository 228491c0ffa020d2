------------------------------- MODULE Session -------------------------------
(* An interpreter session: registers that hold complexes, diagrams and step  *)
(* functions, and calls that write one of them.  A step function is given by *)
(* its values on cells; cell c lies between 2c-2 and 2c, the last one stands  *)
(* for everything beyond.                                                     *)
EXTENDS Rips, Persistence

Dg == INSTANCE Diagrams

Cells   == 10
Forever == 2000000000

NoDiagram  == [dim |-> 0, pts |-> <<>>]
NoFunction == [val |-> [c \in 1..Cells |-> 0], fin |-> TRUE]
Fresh == [K |-> <<<<>>, <<>>>>, D |-> <<NoDiagram, NoDiagram>>, F |-> <<NoFunction, NoFunction>>]

(* Persistence diagrams of a complex in filtration order *)
OrderOf(C)   == [k \in 1..Len(C) |-> C[k].s]
WeightsOf(C) == [k \in 1..Len(C) |-> C[k].w]
IsOrdered(C) == IsFiltration(OrderOf(C))
Points(F, W, pr, d) ==
  LET a == SetToSeq({p \in pr.pairs : Dim(F[p[1]]) = d})
      b == SetToSeq({i \in ReportedCreators(F, pr, FALSE) : Dim(F[i]) = d})
  IN [k \in 1..Len(a) |-> <<W[a[k][1]], W[a[k][2]]>>] \o [k \in 1..Len(b) |-> <<W[b[k]], Forever>>]
Diagrams(C) ==
  LET F == OrderOf(C)
      pr == Pairing(F)
      ds == SetToSortSeq(DiagramDimensions(F, pr, FALSE), <)
  IN [k \in 1..Len(ds) |-> [dim |-> ds[k], pts |-> Points(F, WeightsOf(C), pr, ds[k])]]

SameDiagram(a, b) == a.dim = b.dim /\ BagOf(a.pts) = BagOf(b.pts)

(* Components: features of zero persistence are not reported *)
ZeroPairs(C) ==
  LET F == OrderOf(C)
      pr == Pairing(F)
  IN {<<p[1] - 1, p[2] - 1>> : p \in {q \in pr.pairs : Dim(F[q[1]]) = 0 /\ C[q[1]].w # C[q[2]].w}}
     \cup {<<i - 1, -1>> : i \in {j \in pr.creators : Dim(F[j]) = 0}}
ZeroPoints(C, u) ==
  LET q == SetToSeq(ZeroPairs(C))
  IN [k \in 1..Len(q) |-> <<C[q[k][1] + 1].w, IF q[k][2] = -1 THEN u ELSE C[q[k][2] + 1].w>>]

(* Weighted graphs in files *)
LoadedGraph(f, edges, by) ==
  {Item({v - 1}, f[v]) : v \in 1..Len(f)} \cup
  {LET a == f[edges[k][1] + 1]  b == f[edges[k][2] + 1]
   IN Item({edges[k][1], edges[k][2]},
           CASE by = "sum" -> a + b
             [] by = "min" -> IF a < b THEN a ELSE b
             [] OTHER -> IF a > b THEN a ELSE b) : k \in 1..Len(edges)}
LoadedEdges(edges, weights) ==
  {Item({v}, 0) : v \in UNION {SetOf(edges[k]) : k \in 1..Len(edges)}} \cup
  {Item(SetOf(edges[k]), weights[k]) : k \in 1..Len(edges)}

(* Step functions *)
Indicator(D) ==
  [val |-> [c \in 1..Cells |-> Cardinality({k \in 1..Len(D.pts) :
      LET x == D.pts[k][1]
          y == D.pts[k][2]
          lo == IF x < y THEN x ELSE y
          hi == IF x < y THEN y ELSE x
      IN lo <= 2*c - 2 /\ 2*c <= hi})],
   fin |-> \A k \in 1..Len(D.pts) : D.pts[k][2] # Forever]
Both(f, g, s) == [val |-> [c \in 1..Cells |-> f.val[c] + s * g.val[c]], fin |-> f.fin /\ g.fin]
Each(f, Op(_)) == [f EXCEPT !.val = [c \in 1..Cells |-> Op(f.val[c])]]
Magnitude(x) == IF x < 0 THEN -x ELSE x
RECURSIVE PowerOf(_, _)
PowerOf(x, p) == IF p = 0 THEN 1 ELSE x * PowerOf(x, p - 1)
FunctionAfter(st, op) ==
  CASE op.op = "pif"  -> Indicator(st.D[op.s])
    [] op.op = "add"  -> Both(st.F[op.s], st.F[op.u], 1)
    [] op.op = "sub"  -> Both(st.F[op.s], st.F[op.u], -1)
    [] op.op = "iadd" -> Both(st.F[op.r], st.F[op.s], 1)
    [] op.op = "isub" -> Both(st.F[op.r], st.F[op.s], -1)
    [] op.op = "neg"  -> Each(st.F[op.s], LAMBDA x : -x)
    [] op.op = "abs"  -> Each(st.F[op.r], Magnitude)
    [] op.op = "pow"  -> Each(st.F[op.r], LAMBDA x : PowerOf(x, op.p))
IntegralOf(f) == 2 * FoldLeft(LAMBDA s, x : s + x, 0, f.val)

OnComplexes == {"new", "append", "sort", "sortby", "expand", "maximum", "load"}
OnDiagrams  == {"diagrams", "zero", "points", "rdiag", "runp", "setdim"}
OnFunctions == {"pif", "add", "sub", "iadd", "isub", "neg", "abs", "pow"}
=============================================================================
