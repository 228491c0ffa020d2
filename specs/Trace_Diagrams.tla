---------------------------- MODULE Trace_Diagrams ----------------------------
EXTENDS Diagrams, StatefulTrace

(* State: for each register the dimension and the points, in observed order *)
StartDiagrams(in) == [r \in 1..3 |-> [dim |-> 0, pts |-> <<>>]]

Observed(res) == [r \in 1..3 |-> [dim |-> res.regs[r].dim, pts |-> res.regs[r].pts]]
B(d) == BagOfSeq(d.pts)
Clip(q, a) == IF a > Len(q) THEN Len(q) ELSE a
Slice(q, a, b) == SubSeq(q, Clip(q, a) + 1, Clip(q, b))   \* the driver clips positions

(* Bag and dimension that register op.r has after the operation *)
Effect(st, op) ==
  LET old == st[op.r] IN
  CASE op.op = "add"    -> [dim |-> old.dim, bag |-> Merged(B(old), One(<<op.x, op.y>>))]
    [] op.op = "unp"    -> [dim |-> old.dim, bag |-> Merged(B(old), One(<<op.x, Infinity>>))]
    [] op.op = "merge"  -> [dim |-> old.dim, bag |-> Merged(B(old), B(st[op.s]))]
    [] op.op = "insert" -> [dim |-> old.dim, bag |-> Merged(B(old), BagOfSeq(Slice(st[op.s].pts, op.a, op.b)))]
    [] op.op = "erase"  -> [dim |-> old.dim, bag |-> BagOfSeq(Slice(old.pts, 0, op.a) \o Slice(old.pts, op.b, Len(old.pts)))]
    [] op.op = "rdiag"  -> [dim |-> old.dim, bag |-> WithoutDiagonal(B(old))]
    [] op.op = "runp"   -> [dim |-> old.dim, bag |-> WithoutUnpaired(B(old))]
    [] op.op = "rdup"   -> [dim |-> old.dim, bag |-> WithoutDuplicates(B(old))]
    [] op.op = "setdim" -> [dim |-> op.d, bag |-> B(old)]
    [] op.op = "copy"   -> [dim |-> st[op.s].dim, bag |-> B(st[op.s])]
    [] op.op = "fresh"  -> [dim |-> 0, bag |-> EmptyBag]
    [] OTHER            -> [dim |-> old.dim, bag |-> B(old)]

QueriesOK(new, res) ==
  \A r \in 1..3 :
    /\ res.regs[r].size = Len(new[r].pts)
    /\ res.regs[r].empty = (new[r].pts = <<>>)
    /\ res.regs[r].betti = BettiOf(B(new[r]))
    /\ \A s \in 1..3 :
         /\ res.ne[r][s] = ~res.eq[r][s]
         /\ new[r].pts = new[s].pts => res.eq[r][s]
         /\ B(new[r]) # B(new[s]) => ~res.eq[r][s]

NormsOK(q, n) ==
  /\ AnyUnpaired(q) \/ \A k \in 1..3 : n.total[k] = Total(q, k) /\ n.pnorm[k] = Total(q, k)
  /\ AnyUnpaired(q) \/ \A k \in 1..3 : n.weighted[k] = WeightedTotal(q, k)
  /\ n.inf = LargestPersistence(q)
  /\ BagOfSeq(n.pers) = BagOfSeq([k \in 1..Len(q) |-> Pers(q[k])])
  /\ BagOfSeq(n.apers) = BagOfSeq([k \in 1..Len(q) |-> Abs(Pers(q[k]))])
  \* share of every distinct point times its persistence, times the size
  /\ AnyUnpaired(q) \/
     BagOfSeq(n.shares) = LET b == BagOfSeq(q) IN BagOfSeq([k \in 1..Cardinality(DOMAIN b) |->
        LET p == SetToSeq(DOMAIN b)[k] IN b[p] * Pers(p)])

StepDiagrams(st, op, res) ==
  LET new == Observed(res)
      e == Effect(st, op)
  IN [ok |-> /\ \A r \in 1..3 : r # op.r => new[r].dim = st[r].dim /\ B(new[r]) = B(st[r])
             /\ new[op.r].dim = e.dim /\ B(new[op.r]) = e.bag
             /\ QueriesOK(new, res)
             /\ op.op = "norms" => ("skip" \in DOMAIN res.norms \/ NormsOK(new[op.r].pts, res.norms)),
      st |-> new]
=============================================================================
