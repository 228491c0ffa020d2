------------------------------ MODULE Geometry ------------------------------
(* Smallest enclosing balls and empty regions of integer points, in exact   *)
(* integer arithmetic.                                                       *)
EXTENDS Rips

Sq(p, q) == PointDistance("euclidean", p, q)

(* Squared diameter of the smallest ball around two or three points, as a    *)
(* fraction <<numerator, denominator>>.  For an acute triangle it is the     *)
(* circumscribed one: 4ABC / (16 area^2), with squared sides A, B, C.        *)
Area16(A, B, C) == 2*A*B + 2*B*C + 2*C*A - A*A - B*B - C*C
TripleBall(p, q, r) ==
  LET A == Sq(q, r)  B == Sq(p, r)  C == Sq(p, q)
      M == Max({A, B, C})
  IN IF 2 * M >= A + B + C THEN <<M, 1>> ELSE <<4 * A * B * C, Area16(A, B, C)>>

(* In the plane the ball of a set is the largest ball of at most three of    *)
(* its points.                                                               *)
SubBalls(pts, s) ==
  {<<Sq(pts[i+1], pts[j+1]), 1>> : i, j \in s}
  \cup {TripleBall(pts[x[1]+1], pts[x[2]+1], pts[x[3]+1]) :
          x \in {y \in s \X s \X s : y[1] < y[2] /\ y[2] < y[3]}}
Fits(pts, s, R) == \A b \in SubBalls(pts, s) : b[1] <= R * R * b[2]          \* radius at most R/2
FitsBelow(pts, s, R) == \A b \in SubBalls(pts, s) : b[1] < R * R * b[2]       \* radius less than R/2
Tight(pts, s, R) == Fits(pts, s, R) /\ \E b \in SubBalls(pts, s) : b[1] = R * R * b[2]

(* Does milli/1000 approximate the squared diameter of the ball of s? *)
Milli(b) == 1000 * (b[1] \div b[2]) + (1000 * (b[1] - b[2] * (b[1] \div b[2]))) \div b[2]
DiameterIs(pts, s, milli) ==
  LET B == {Milli(b) : b \in SubBalls(pts, s)} IN Abs(Max(B) - milli) <= 2

(* Content of a Cech complex.  Exact equality of ball and radius is decided  *)
(* by floating point rounding for three or more points; both answers are     *)
(* allowed there.                                                            *)
(* hair: the radius is R/2, or differs from it by a hair (-1: below, 1: above) *)
IsCech(pts, R, hair, C) ==
  LET S   == SimplicesOf(C)
      due == {s \in SUBSET (0..Len(pts)-1) : s # {} /\ (IF hair < 0 THEN FitsBelow(pts, s, R) ELSE Fits(pts, s, R))}
      decided(s) == hair # 0 \/ Cardinality(s) <= 2 \/ ~Tight(pts, s, R)
  IN /\ Distinct(C)
     /\ S \subseteq due
     /\ \A s \in due : s \in S \/ ~decided(s) \/ \E f \in Faces(s) : f \notin S /\ ~decided(f)
     /\ \A x \in ItemsOf(C) : DiameterIs(pts, x.s, x.w)
     /\ \A s \in S : \A f \in Facets(s) : f \in S \/ ~decided(f)
     /\ \A k \in 1..Len(C)-1 : C[k].w <= C[k+1].w + 1

-----------------------------------------------------------------------------
(* Beta-skeleton for beta = b/2 >= 1: the region of p and q is the           *)
(* intersection of two balls with diameter beta |pq|, centred on the line    *)
(* through p and q.  Sign of (distance to the centre - radius), all scaled   *)
(* by four and squared.                                                      *)
Side(p, q, b, x) ==
  FoldLeft(LAMBDA acc, k : LET t == 4 * x[k] - ((4 - b) * p[k] + b * q[k]) IN acc + t * t, 0, [k \in 1..Len(p) |-> k])
  - b * b * Sq(p, q)
(* Regions grow with beta: if beta differs by a hair, a point on the border  *)
(* is inside or outside; otherwise both answers are allowed.  End points are *)
(* always on the border.                                                     *)
Inside(p, q, b, hair, x)  ==
  IF hair > 0 THEN x \notin {p, q} /\ Side(p, q, b, x) <= 0 /\ Side(q, p, b, x) <= 0 ELSE Side(p, q, b, x) < 0 /\ Side(q, p, b, x) < 0
Outside(p, q, b, hair, x) ==
  IF hair < 0 THEN x \notin {p, q} /\ (Side(p, q, b, x) >= 0 \/ Side(q, p, b, x) >= 0) ELSE Side(p, q, b, x) > 0 \/ Side(q, p, b, x) > 0

Blocked(pts, b, hair, i, j) == \E r \in 0..Len(pts)-1 : r # i /\ r # j /\ Inside(pts[i+1], pts[j+1], b, hair, pts[r+1])
Clear(pts, b, hair, i, j)   == \A r \in 0..Len(pts)-1 : r # i /\ r # j => Outside(pts[i+1], pts[j+1], b, hair, pts[r+1])
=============================================================================
