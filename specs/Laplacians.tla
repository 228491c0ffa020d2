----------------------------- MODULE Laplacians -----------------------------
(* Weighted graphs on the vertices 1..n, given by their symmetric matrix of   *)
(* integral weights: Laplacians, pseudo-inverses, heat kernels and spectral   *)
(* bisection.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Ext == INSTANCE SequencesExt
RECURSIVE PlusTo(_, _)
PlusTo(s, k) == IF k = 0 THEN 0 ELSE s[k] + PlusTo(s, k - 1)
Plus(s) == PlusTo(s, Len(s))
Abs(i) == IF i < 0 THEN -i ELSE i
Max(S) == CHOOSE m \in S : \A x \in S : x <= m
Min(S) == CHOOSE m \in S : \A x \in S : m <= x
(* Rounded division of integers *)
Round(a, b) == (2 * a + b) \div (2 * b)

Matrix(n, F(_, _)) == TLCEval([ i \in 1..n |-> [ j \in 1..n |-> F(i, j) ] ])
Identity(n, s) == Matrix(n, LAMBDA i, j : IF i = j THEN s ELSE 0)
Product(A, B) == LET n == Len(A) IN Matrix(n, LAMBDA i, j : Plus([ k \in 1..n |-> A[i][k] * B[k][j] ]))
Trace(A) == Plus([ i \in 1..Len(A) |-> A[i][i] ])
RowSum(A, i) == Plus(A[i])

(* Edges are triples of two positions in the sequence of vertices and a       *)
(* weight.                                                                    *)
Adjacency(n, edges) ==
  Matrix(n, LAMBDA i, j :
    LET s == { k \in 1..Len(edges) : {edges[k][1], edges[k][2]} = {i, j} /\ i # j }
    IN IF s = {} THEN 0 ELSE edges[CHOOSE k \in s : TRUE][3])
Laplacian(W) == Matrix(Len(W), LAMBDA i, j : IF i = j THEN RowSum(W, i) ELSE -W[i][j])

RECURSIVE Reach(_, _)
Reach(W, S) == LET T == S \union { j \in 1..Len(W) : \E i \in S : W[i][j] # 0 } IN IF T = S THEN S ELSE Reach(W, T)
Connected(W) == Len(W) = 0 \/ Reach(W, {1}) = 1..Len(W)

(* The pseudo-inverse of the Laplacian of a connected graph is the only       *)
(* symmetric matrix P with vanishing row sums and L P = 1 - J/n.  The entries *)
(* of P are known up to 1/s.                                                  *)
IsPseudoInverse(P, L, s) ==
  LET n == Len(L) IN
  /\ \A i, j \in 1..n : P[i][j] = P[j][i] \/ Abs(P[i][j] - P[j][i]) <= 1
  /\ \A i \in 1..n : Abs(RowSum(P, i)) <= n
  /\ \A i, j \in 1..n : Abs(n * Product(L, P)[i][j] - (IF i = j THEN n - 1 ELSE -1) * s)
                        <= n * (1 + Plus([ k \in 1..n |-> Abs(L[i][k]) ]))

(* The heat kernel exp(-tL) for t = p/q, times HeatUnit, by its power series. *)
HeatUnit == 1048576
Heat(M, p, q) ==
  LET L == TLCEval(M)
      n == Len(L)
      Step(acc, m) ==
        LET next == TLCEval([ i \in 1..n |-> [ j \in 1..n |-> Round(-p * Plus([ k \in 1..n |-> L[i][k] * acc[1][k][j] ]), q * m) ] ])
        IN TLCEval(<< next, [ i \in 1..n |-> [ j \in 1..n |-> acc[2][i][j] + next[i][j] ] ] >>)
  IN Ext!FoldLeft(Step, << Identity(n, HeatUnit), Identity(n, HeatUnit) >>, [ m \in 1..28 |-> m ])[2]
(* The series does not leave the range of numbers. *)
Feasible(L, p, q) == \A i \in 1..Len(L) : 2 * L[i][i] * p <= 4 * q

Close(A, B, d) == \A i, j \in 1..Len(B) : Abs(A[i][j] - B[i][j]) <= d
Shrunk(A, d) == [ i \in 1..Len(A) |-> [ j \in 1..Len(A) |-> Round(A[i][j], d) ] ]

(* Determinants by expansion along the first row *)
RECURSIVE Det(_)
Det(A) ==
  LET n == Len(A)
      Minor(j) == [ r \in 1..n-1 |-> [ c \in 1..n-1 |-> A[r + 1][IF c < j THEN c ELSE c + 1] ] ]
      Part(j) == LET M == TLCEval(Minor(j)) IN (IF j % 2 = 1 THEN 1 ELSE -1) * A[1][j] * Det(M)
  IN IF n = 0 THEN 1 ELSE Plus(TLCEval([ j \in 1..n |-> IF A[1][j] = 0 THEN 0 ELSE Part(j) ]))
(* Integral eigenvalues *)
Roots(L) ==
  { x \in 0..(2 * Max({ L[i][i] : i \in 1..Len(L) } \union {0})) :
      LET M == TLCEval(Matrix(Len(L), LAMBDA i, j : L[i][j] - (IF i = j THEN x ELSE 0))) IN Det(M) = 0 }
PositiveRoots(L) == Roots(L) \ {0}

(* Bisection: two sets of positions that cover 1..n *)
IsBisection(A, B, n) == A \union B = 1..n /\ A \intersect B = {}
=============================================================================
