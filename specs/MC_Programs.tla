----------------------------- MODULE MC_Programs -----------------------------
(* Directories with two diagrams of a small grid, in all combinations; laws   *)
(* that relate what the programs report.                                      *)
EXTENDS Programs, Json, CSV, IOUtils, TLC

CONSTANTS Coordinates, MaxPoints

Grid == Coordinates \X Coordinates
Name(k) == [b |-> <<"a", "b">>[k], s |-> "d", d |-> 0]
Option(by, p) == [files |-> <<Name(1), Name(2)>>, by |-> by, p |-> p, clean |-> FALSE, unique |-> FALSE, factor |-> 0]
Key(k) == KeyOf(Name(k))

VARIABLE dir

Start == dir = [n \in {Name(1), Name(2)} |-> <<>>]
Write == \E n \in DOMAIN dir, p \in Grid : p[1] < p[2] /\ Len(dir[n]) < MaxPoints /\ dir' = [dir EXCEPT ![n] = Append(@, p)]
Next == Write
Spec == Start /\ [][Next]_dir

D(by, p, i, j) == Distance(dir, Option(by, p), Key(i), Key(j))
Metrics == {"hausdorff", "wasserstein", "indicator"}
Symmetric == \A by \in Metrics, p \in {1, 2} : D(by, p, 1, 2) = D(by, p, 2, 1)
Reflexive == \A by \in Metrics, p \in {1, 2}, i \in 1..2 : D(by, p, i, i) = 0
(* Indicator functions vary less than the points move *)
Stable == D("indicator", 1, 1, 2) <= D("wasserstein", 1, 1, 2)
(* The integral of an indicator function is the total persistence *)
Integral == \A n \in DOMAIN dir : Sum([c \in 1..Cells |-> Counts(dir[n])[c]]) = TotalOf(dir[n], 1)
Norms == \A n \in DOMAIN dir :
  LET q == dir[n] IN
  /\ LargestOf(q) <= TotalOf(q, 1)
  /\ TotalOf(q, 1) <= Len(q) * LargestOf(q)
  /\ TotalOf(q, 2) <= LargestOf(q) * TotalOf(q, 1)
Signatures == \A n \in DOMAIN dir :
  LET q == dir[n]
      w == Signature(q)
  IN /\ 2 * Len(w) = Len(q) * (Len(q) - 1)
     /\ \A k \in 1..Len(w) - 1 : w[k] >= w[k+1]
     /\ \A k \in 1..Len(w) : w[k] <= LargestOf(q)

Export == (\A n \in DOMAIN dir : dir[n] # <<>>) => CSVWrite("%1$s", <<ToJson(<<dir[Name(1)], dir[Name(2)]>>)>>, IOEnv.EXPORT)
=============================================================================
