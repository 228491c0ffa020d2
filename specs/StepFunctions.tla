---------------------------- MODULE StepFunctions ----------------------------
(* Step functions on a line that is divided into cells.  Cell c lies between *)
(* the points 2c-2 and 2c.  A function is given by its value on every cell;  *)
(* a piece [a, b] with even end points covers the cells between them.        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANT Cells              \* number of cells

AbsOf(x) == IF x < 0 THEN -x ELSE x
Covers(p, c) == p.a <= 2*c - 2 /\ 2*c <= p.b
Disjoint(P) == \A k, l \in 1..Len(P) : k # l => P[k].b <= P[l].a \/ P[l].b <= P[k].a
FromPieces(P) == [c \in 1..Cells |->
  LET on == {k \in 1..Len(P) : Covers(P[k], c)} IN IF on = {} THEN 0 ELSE P[CHOOSE k \in on : TRUE].y]
DomainOf(P) == {c \in 1..Cells : \E k \in 1..Len(P) : Covers(P[k], c)}
(* Pieces that contain the point x; the value there is the largest one *)
Touching(P, x) == {P[k].y : k \in {l \in 1..Len(P) : P[l].a <= x /\ x <= P[l].b}}
AtPoint(P, x) == LET t == Touching(P, x) IN
  IF t = {} THEN {0} ELSE {y \in t : \A z \in t : AbsOf(z) <= AbsOf(y)}

Total(v) == FoldLeft(LAMBDA s, x : s + x, 0, v)
IntegralOf(v) == 2 * Total(v)
AbsolutesOf(v) == [c \in 1..Cells |-> AbsOf(v[c])]
SumOfFunctions(v, w) == [c \in 1..Cells |-> v[c] + w[c]]

(* Number of intervals that contain a cell; points are <<x, y>> in any order *)
(* or <<x, Forever>>                                                         *)
Forever == 2000000000
Active(D) == [c \in 1..Cells |-> Cardinality({k \in 1..Len(D) :
   LET lo == IF D[k][1] < D[k][2] THEN D[k][1] ELSE D[k][2]
       hi == IF D[k][1] < D[k][2] THEN D[k][2] ELSE D[k][1]
   IN lo <= 2*c - 2 /\ 2*c <= hi})]
=============================================================================
