--------------------------- MODULE MC_StepFunctions ---------------------------
(* All pairs of small step functions, given by pieces.                       *)
EXTENDS StepFunctions, CSV, Json, IOUtils

CONSTANT Values

QuickValues == {-1, 1, 2}
ThoroughValues == {-2, 0, 1}

VARIABLES P, Q, f, g

(* Sequences of disjoint pieces, from left to right *)
Intervals == {<<a, b>> \in (1..Cells-1) \X (1..Cells-1) : a < b}
PiecesOf(iv, y) == [k \in 1..Len(iv) |-> [a |-> 2*iv[k][1], b |-> 2*iv[k][2], y |-> y[k]]]
AllPieces == LET ivs == {q \in UNION {[1..n -> Intervals] : n \in 0..2} : \A k \in 1..Len(q)-1 : q[k][2] <= q[k+1][1]}
             IN UNION {{PiecesOf(q, y) : y \in [1..Len(q) -> Values]} : q \in ivs}

Init == P \in AllPieces /\ Q \in AllPieces /\ f = FromPieces(P) /\ g = FromPieces(Q)
Next == UNCHANGED <<P, Q, f, g>>
Spec == Init /\ [][Next]_<<P, Q, f, g>>

PiecesOK == Disjoint(P) /\ \A c \in 1..Cells : c \notin DomainOf(P) => f[c] = 0
(* The value in a cell is the value at its midpoint *)
PointsOK == \A c \in 1..Cells : AtPoint(P, 2*c - 1) = {f[c]}
IntegralLinear == IntegralOf(SumOfFunctions(f, g)) = IntegralOf(f) + IntegralOf(g)
IntegralPieces == IntegralOf(f) = FoldLeft(LAMBDA s, p : s + p.y * (p.b - p.a), 0, P)
Triangle == /\ AbsOf(IntegralOf(f)) <= IntegralOf(AbsolutesOf(f))
            /\ IntegralOf(AbsolutesOf(SumOfFunctions(f, g))) <= IntegralOf(AbsolutesOf(f)) + IntegralOf(AbsolutesOf(g))
(* The integral of an indicator function is the total persistence *)
Points(R) == [k \in 1..Len(R) |-> IF R[k].y < 0 THEN <<R[k].b, R[k].a>> ELSE <<R[k].a, R[k].b>>]
IndicatorOK ==
  LET D == Points(P) \o Points(Q) IN
  IntegralOf(Active(D)) = FoldLeft(LAMBDA s, p : s + AbsOf(p[2] - p[1]), 0, D)

Export == CSVWrite("%1$s", <<ToJson(<<P, Q>>)>>, IOEnv.EXPORT)
=============================================================================
