-------------------------- MODULE MC_PiecewiseLinear --------------------------
(* All pairs of small piecewise linear functions with nodes 0, 2, 4, ...     *)
EXTENDS PiecewiseLinear, CSV, Json, IOUtils

CONSTANT Values

QuickValues == {-2, 0, 1}
ThoroughValues == {-3, -1, 0, 2}

VARIABLES F, G, f, g

NodesOf(y) == [k \in 1..Len(y) |-> <<2*(k-1), y[k]>>]
All == {NodesOf(y) : y \in [1..(Points \div 2) + 1 -> Values]}
Init == F \in All /\ G \in All /\ f = Interpolate(F, 2) /\ g = Interpolate(G, 2)
Next == UNCHANGED <<F, G, f, g>>
Spec == Init /\ [][Next]_<<F, G, f, g>>

Sum == [x \in Xs |-> f[x] + g[x]]
InterpolationLinear == Sum = Interpolate([k \in 1..Len(F) |-> <<F[k][1], F[k][2] + G[k][2]>>], 2)
NodesOK == \A k \in 1..Len(F) : f[F[k][1]] = 2 * F[k][2]
(* Integrals do not depend on the subdivision (values are exact for p = 2;   *)
(* rounding of at most one per cell otherwise)                               *)
Coarse(cell(_, _), n) == FoldLeft(LAMBDA s, k : s + cell(2 * F[k][2], 2 * F[k+1][2]), 0, [k \in 1..Len(F)-1 |-> k])
SubdivisionOK ==
  /\ SumCells(f, 0, Points, Cell2) = 2 * Coarse(Cell2, 2)
  /\ LET d == SumCells(f, 0, Points, Cell1) - 2 * Coarse(Cell1, 1) IN AbsOf(d) <= 2 * Points
  /\ LET d == SumCells(f, 0, Points, Cell3) - 2 * Coarse(Cell3, 3) IN AbsOf(d) <= 2 * Points
Triangle == SumCells(Sum, 0, Points, Cell1) <= SumCells(f, 0, Points, Cell1) + SumCells(g, 0, Points, Cell1) + 2 * Points
Parallelogram ==
  LET D == [x \in Xs |-> f[x] - g[x]] IN
  SumCells(Sum, 0, Points, Cell2) + SumCells(D, 0, Points, Cell2)
    = 2 * SumCells(f, 0, Points, Cell2) + 2 * SumCells(g, 0, Points, Cell2)

Export == CSVWrite("%1$s", <<ToJson(<<F, G>>)>>, IOEnv.EXPORT)
=============================================================================
