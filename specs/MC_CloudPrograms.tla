-------------------------- MODULE MC_CloudPrograms --------------------------
(* Points on a line, added one by one; laws of what the programs report.     *)
EXTENDS CloudPrograms, Json, CSV, IOUtils, TLC

CONSTANTS Positions, MaxPoints, Radii

VARIABLE xs

Start == xs = <<>>
Add == Len(xs) < MaxPoints /\ \E x \in Positions : xs' = Append(xs, x)
Next == Add
Spec == Start /\ [][Next]_xs

Cloud(m, R) == [pts |-> [k \in 1..Len(xs) |-> <<xs[k]>>], metric |-> m, R |-> R]
Case(desc, p, R, inv, finite) ==
  [xs |-> xs, u |-> 1, d |-> 1, desc |-> desc, p |-> p, n |-> (Len(xs) + 1) \div 2, R |-> R, top |-> 0, inv |-> inv, norm |-> FALSE, finite |-> finite]

(* The neighbour relation is symmetric; on a line the metrics coincide *)
Handshake == xs # <<>> => \A R \in Radii :
  LET c == Cloud("manhattan", R) IN
  /\ (Sum(Degrees(c)) - Len(xs)) % 2 = 0
  /\ Degrees(c) = Degrees(Cloud("euclidean", R))
  /\ Sum(WeightedDegrees(c)) % 2 = 0
  /\ Len(SquaredDistances(c)) = (Len(xs) * (Len(xs) - 1)) \div 2
(* Descriptors do not depend on the order of the points; distances to a      *)
(* measure decrease with the number of neighbours; means are at most maxima  *)
Bounds == xs # <<>> =>
  LET m == Len(xs) IN \A i \in 1..m :
    /\ Plain(Case("eccentricity", 1, 1, FALSE, FALSE), i) <= (m - 1) * Plain(Case("eccentricity", 0, 1, FALSE, FALSE), i)
    /\ Plain(Case("density", 1, 1, FALSE, FALSE), i) <= 0
(* Components at the end are counted by unpaired points, for either direction *)
Components1 == xs # <<>> => \A R \in Radii, p \in {0, 1}, inv \in BOOLEAN :
  LET c == Case("eccentricity", p, R, inv, FALSE)
      ds == DescriptorDiagrams(c)
      S == SetOf(xs)
      \* two points are in the same component unless a gap separates them
      gaps == {x \in S : x # Max(S) /\ 2 * (Min({y \in S : y > x}) - x) >= R}
      repeated == Len(xs) - Cardinality(S)
      n == Cardinality({k \in 1..Len(ds[1].pts) : Unpaired(ds[1].pts[k])})
  IN Len(xs) > 1 /\ ds # <<>> /\ ds[1].d = 0 => n = Cardinality(gaps) + 1
Finite == xs # <<>> => \A R \in Radii :
  \A k \in 1..Len(DescriptorDiagrams(Case("density", 1, R, FALSE, TRUE))) :
    \A j \in 1..Len(DescriptorDiagrams(Case("density", 1, R, FALSE, TRUE))[k].pts) :
      LET q == DescriptorDiagrams(Case("density", 1, R, FALSE, TRUE))[k].pts[j] IN ~Unpaired(q) /\ q[1] < q[2]
(* Patches of four values: contrast and direction ignore brightness *)
Brightness == Len(xs) = 4 =>
  LET q == [k \in 1..4 |-> xs[k] + 3] IN
  /\ Contrast(2, q) = Contrast(2, xs) /\ Centred(q) = Centred(xs)
  /\ Sum(Centred(xs)) = 0
  /\ (Contrast(2, xs) = 0) = (Cardinality(SetOf(xs)) = 1)

Export == Len(xs) > 1 => CSVWrite("%1$s", <<ToJson(xs)>>, IOEnv.EXPORT)
=============================================================================
