----------------------------- MODULE PointCloud -----------------------------
(* Point clouds as values: n points of dimension d, stored in registers.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoCloud == [ n |-> 0, d |-> 0, pts |-> << >> ]
Zeros(n, d) == [ n |-> n, d |-> d, pts |-> [ i \in 1..n |-> [ k \in 1..d |-> 0 ] ] ]
WellFormed(P) == Len(P.pts) = P.n /\ \A i \in 1..P.n : Len(P.pts[i]) = P.d

(* Calls with wrong arguments are refused and change nothing. *)
Accepts(S, op) ==
  CASE op.op = "set"    -> op.i < S[op.r].n /\ Len(op.x) = S[op.r].d
    [] op.op = "get"    -> op.i < S[op.r].n
    [] op.op = "concat" -> S[op.a].d = S[op.b].d
    [] OTHER            -> TRUE

(* The clouds after a call *)
After(S, op) ==
  IF ~Accepts(S, op) THEN S ELSE
  CASE op.op = "new"    -> [ S EXCEPT ![op.r] = Zeros(op.n, op.d) ]
    [] op.op = "set"    -> [ S EXCEPT ![op.r].pts[op.i + 1] = op.x ]
    [] op.op \in {"copy", "assign"} -> [ S EXCEPT ![op.r] = S[op.a] ]
    [] op.op = "move"   -> IF op.r = op.a THEN S ELSE [ S EXCEPT ![op.r] = S[op.a], ![op.a] = NoCloud ]
    [] op.op = "swap"   -> [ S EXCEPT ![op.r] = S[op.a], ![op.a] = S[op.r] ]
    [] op.op = "concat" -> [ S EXCEPT ![op.r] = [ n |-> S[op.a].n + S[op.b].n, d |-> S[op.a].d,
                                                  pts |-> S[op.a].pts \o S[op.b].pts ] ]
    [] OTHER            -> S

(* What a call returns; res.pts is only present for calls that report points *)
Answers(S, op, res) ==
  /\ res.exc = ~Accepts(S, op)
  /\ Accepts(S, op) =>
     CASE op.op = "get"   -> res.x = S[op.r].pts[op.i + 1]
       [] op.op = "equal" -> res.eq = (S[op.a] = S[op.b])
       [] op.op = "all"   -> /\ res.n = S[op.r].n /\ res.d = S[op.r].d
                             /\ res.empty = (S[op.r].n = 0)
                             /\ res.pts = S[op.r].pts
       [] OTHER           -> TRUE

(* Registers changed by a call *)
Touched(op) ==
  CASE op.op \in {"new", "set", "copy", "assign", "concat"} -> { op.r }
    [] op.op \in {"move", "swap"} -> { op.r, op.a }
    [] OTHER -> {}

------------------------------------------------------------------------------
(* Descriptors of the points of a cloud, for integral coordinates           *)

AbsV(x) == IF x < 0 THEN -x ELSE x
RECURSIVE SumTo(_, _)
SumTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + SumTo(s, k - 1)
SumSeq(s) == SumTo(s, Len(s))
Manhattan(p, q) == SumSeq([ k \in 1..Len(p) |-> AbsV(p[k] - q[k]) ])
Square(p, q) == SumSeq([ k \in 1..Len(p) |-> (p[k] - q[k]) * (p[k] - q[k]) ])

MaxOfSet(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE PowerOf(_, _)
PowerOf(x, k) == IF k = 0 THEN 1 ELSE x * PowerOf(x, k - 1)

(* Number of pairs of other points whose lune contains the point k. D is a  *)
(* monotone function of the distance.                                       *)
LensDepth(D, n, k) ==
  Cardinality({ e \in ((1..n) \ {k}) \X ((1..n) \ {k}) :
                  e[1] < e[2] /\ D[e[1]][k] <= D[e[1]][e[2]] /\ D[e[2]][k] <= D[e[1]][e[2]] })

Others(n, i) == [ j \in 1..n |-> IF j = i THEN 0 ELSE 1 ]
(* n times the eccentricity, raised to the power of its order *)
EccentricitySum(D, n, i, order) == SumSeq([ j \in 1..n |-> Others(n, i)[j] * PowerOf(D[i][j], order) ])
Eccentricity0(D, n, i) == MaxOfSet({ D[i][j] : j \in 1..n })

(* Sum of the k smallest distances from i, including the one to itself *)
Rank(D, n, i, j) == Cardinality({ l \in 1..n : D[i][l] < D[i][j] \/ (D[i][l] = D[i][j] /\ l < j) })
NearestSum(D, n, i, k) == SumSeq([ j \in 1..n |-> IF Rank(D, n, i, j) < k THEN D[i][j] ELSE 0 ])

(* Truncated Gaussian density times the number of points and 10^6.  Points   *)
(* have coordinates in units of 1/4 and the bandwidth is one.                *)
ExpTable == << 1000000, 969233, 939413, 910510, 882497, 855345, 829029, 803523, 778801, 754840, 731616, 709106, 687289, 666144, 645649, 625784, 606531 >>      \* 10^6 exp(-k/32), k = 0..16
TruncatedSum(Q, n, i) == SumSeq([j \in 1..n |-> IF Q[i][j] <= 16 THEN ExpTable[Q[i][j] + 1] ELSE 0])
(* Points within bandwidth h of point i *)
Within(Q, n, i, h) == Cardinality({j \in 1..n : Q[i][j] <= h * h})
=============================================================================
