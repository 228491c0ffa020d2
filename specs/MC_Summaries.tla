---------------------------- MODULE MC_Summaries ----------------------------
(* Diagrams grow by one point per step.                                      *)
EXTENDS Summaries, CSV, Json, IOUtils

CONSTANTS Side, MaxPoints

VARIABLE D
Init == D = << >>
Points == { p \in (0..Side) \X (0..Side) : p[1] <= p[2] }
Next == Len(D) < MaxPoints /\ \E p \in Points : D' = Append(D, p)
Spec == Init /\ [][Next]_D

(* The table of logarithms *)
ASSUME \A a \in 1..512 : \A b \in 1..(512 \div a) : AbsOf(Log2(a) + Log2(b) - Log2(a * b)) <= 1
ASSUME \A k \in 0..9 : Log2(2 ^ k) = 100000 * k
ASSUME \A a \in 1..511 : Log2(a) < Log2(a + 1)

Some == D # << >>
Alive == { i \in 1..Len(D) : D[i][1] # D[i][2] }
EntropyBounds == Alive # {} =>
  LET h == Entropy(Persistences(D)) IN h >= -1 /\ h <= Log2(Cardinality(Alive)) + 1
UniformEntropy == Alive # {} /\ (\A i, j \in Alive : Persistences(D)[i] = Persistences(D)[j])
  => CloseTo(Entropy(Persistences(D)), Log2(Cardinality(Alive)))
DiagonalPoints == Alive # {} => CloseTo(Entropy(Persistences(Append(D, << 1, 1 >>))), Entropy(Persistences(D)))
Doubling == Alive # {} => CloseTo(Entropy(Persistences(D \o D)), Entropy(Persistences(D)) + 100000)
CountsAll == Some => \A n \in {2, 3, 5} : Total(GridCounts(D, n)) = Len(D)
OneCell == Some => \A n \in {2, 3} : Entropy(GridCounts(<< D[1] >>, n)) = 0
EnvelopeDominates == Some =>
  /\ \A i \in 1..Len(D) : EnvelopeAt(D, D[i][1] + D[i][2]) >= D[i][2] - D[i][1]
  /\ \A m \in Mids(D) : \E i \in 1..Len(D) : D[i][1] + D[i][2] = m /\ D[i][2] - D[i][1] = EnvelopeAt(D, m)
Export == CSVWrite("%1$s", <<ToJson(D)>>, IOEnv.EXPORT)
=============================================================================
