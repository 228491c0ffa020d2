------------------------------ MODULE Diagrams ------------------------------
(* Persistence diagrams as multisets of points <<x, y>>; a point at infinity *)
(* has y = Infinity.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, Bags

Infinity == 2000000000

BagOfSeq(q) == LET s == {q[k] : k \in 1..Len(q)} IN [x \in s |-> Cardinality({k \in 1..Len(q) : q[k] = x})]
RECURSIVE SumOf(_)
SumOf(q) == IF q = <<>> THEN 0 ELSE q[1] + SumOf(Tail(q))
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Power(_, _)
Power(x, k) == IF k = 0 THEN 1 ELSE x * Power(x, k-1)

Unpaired(p) == p[2] = Infinity
OnDiagonal(p) == p[1] = p[2]
Keep(b, good(_)) == [p \in {q \in DOMAIN b : good(q)} |-> b[p]]
WithoutDiagonal(b)   == Keep(b, LAMBDA p : ~OnDiagonal(p))
WithoutUnpaired(b)   == Keep(b, LAMBDA p : ~Unpaired(p))
WithoutDuplicates(b) == [p \in DOMAIN b |-> 1]
Merged(a, b)         == a (+) b
One(p)               == SetToBag({p})
Minus1(b, p)         == b (-) One(p)

BettiOf(b) == MapThenSumSet(LAMBDA p : b[p], {p \in DOMAIN b : Unpaired(p)})
SizeOf(b)  == MapThenSumSet(LAMBDA p : b[p], DOMAIN b)

(* Functions of a diagram given as a sequence *)
AnyUnpaired(q) == \E k \in 1..Len(q) : Unpaired(q[k])
Pers(p) == IF Unpaired(p) THEN Infinity ELSE p[2] - p[1]
Total(q, k) == SumOf([i \in 1..Len(q) |-> Power(Abs(Pers(q[i])), k)])
WeightedTotal(q, k) == SumOf([i \in 1..Len(q) |-> Abs(q[i][1]) * Power(Abs(Pers(q[i])), k)])
LargestPersistence(q) ==
  IF q = <<>> THEN 0 ELSE Max({Abs(Pers(q[i])) : i \in 1..Len(q)})
=============================================================================
