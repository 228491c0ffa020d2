-------------------------- MODULE MC_Enumerations --------------------------
(* All arrangements of r out of n elements; every arrangement is one step.  *)
EXTENDS Enumerations, CSV, Json, IOUtils

CONSTANT MaxN

VARIABLES n, chosen
Init == n \in 0..MaxN /\ chosen = << >>
Next == /\ UNCHANGED n
        /\ \E x \in (1..n) \ Items(chosen) : chosen' = Append(chosen, x)
Spec == Init /\ [][Next]_<< n, chosen >>

Arrangements(m, r) == { s \in [ 1..r -> 1..m ] : Injective(s) }
(* The formulas count the classes of arrangements. *)
CountsAreClasses == chosen = << >> =>
  \A kind \in Kinds : \A r \in 0..n :
    Cardinality({ Representative(kind, s) : s \in Arrangements(n, r) }) = Expected(kind, n, r)
(* Equivalent arrangements have the same representative. *)
Rotate(s) == IF s = << >> THEN s ELSE Append(Tail(s), Head(s))
Invariance ==
  /\ Representative("circular", Rotate(chosen)) = Representative("circular", chosen)
  /\ Representative("reversible", Reverse(chosen)) = Representative("reversible", chosen)
  /\ Representative("revcircular", Rotate(chosen)) = Representative("revcircular", chosen)
  /\ Representative("revcircular", Reverse(chosen)) = Representative("revcircular", chosen)
Idempotent == \A kind \in Kinds \ {"combination"} :
  Representative(kind, Representative(kind, chosen)) = Representative(kind, chosen)
Pascal == (n > 0 /\ chosen = << >>) => \A r \in 1..(n - 1) :
  Expected("combination", n, r) = Expected("combination", n - 1, r) + Expected("combination", n - 1, r - 1)
Export == chosen = << >> => CSVWrite("%1$s", <<ToJson(n)>>, IOEnv.EXPORT)
=============================================================================
