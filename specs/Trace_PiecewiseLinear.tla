------------------------- MODULE Trace_PiecewiseLinear -------------------------
EXTENDS PiecewiseLinear, StatefulTrace

S == 64                     \* values are multiples of 1/S

(* A register: values at grid points; ends of the domain (lo > hi if empty); *)
(* lin: linear between grid points; int: integral of the absolute value (as  *)
(* observed); tag: changes whenever the register is written, except by copy. *)
Nothing == [val |-> [x \in Xs |-> 0], lo |-> 1, hi |-> 0, lin |-> TRUE, int |-> 0, tag |-> 0]
StartPL(in) == [n |-> 0, reg |-> [r \in 1..3 |-> Nothing]]

InDomain(R, x) == R.lo <= x /\ x <= R.hi
Mapped(R, f(_)) == [R EXCEPT !.val = [x \in Xs |-> IF InDomain(R, x) THEN f(R.val[x]) ELSE 0]]
LowOf(A, B)  == IF A.lo > A.hi THEN B.lo ELSE IF B.lo > B.hi THEN A.lo ELSE IF A.lo < B.lo THEN A.lo ELSE B.lo
HighOf(A, B) == IF A.lo > A.hi THEN B.hi ELSE IF B.lo > B.hi THEN A.hi ELSE IF A.hi > B.hi THEN A.hi ELSE B.hi
Combined(A, B, f(_, _)) ==
  [val |-> [x \in Xs |-> f(A.val[x], B.val[x])], lo |-> LowOf(A, B), hi |-> HighOf(A, B),
   lin |-> A.lin /\ B.lin, int |-> 0, tag |-> 0]

Near(a, b, t) == a - b <= t /\ b - a <= t
DuplicateNodes(N) == \E k, l \in 1..Len(N) : k # l /\ N[k][1] = N[l][1]

(* integral[1], [2], [3]: p-th powers of integral(p), times 16 * S *)
IntegralsOK(R, old, op, res) ==
  LET n == 2 * Points + 2
      coarse == \A x \in Xs : R.val[x] % 32 = 0 /\ AbsOf(R.val[x]) <= 3200
      half == [x \in Xs |-> R.val[x] \div 32]
  IN IF R.lin
     THEN /\ Near(res.integral[1], SumCells(R.val, R.lo, R.hi, Cell1), n)
          /\ Near(res.integral[2], SumCells(R.val, R.lo, R.hi, Cell2) \div 12, n)
          /\ coarse => Near(res.integral[3], 32 * SumCells(half, R.lo, R.hi, Cell3), 64 * n)
     ELSE IF op.op = "abs" /\ old.int >= 0 THEN Near(res.integral[1], old.int, n)
     ELSE TRUE

MaximumOK(R, res) ==
  LET inside == {R.val[x] : x \in {y \in Xs : InDomain(R, y)}} IN
  /\ res.sup = res.max
  /\ IF inside = {} THEN res.max = 0
     ELSE IF R.lin THEN res.max = Max(inside)
     ELSE \A v \in inside : v <= res.max

StepPL(st, op, res) ==
  LET A == IF "s" \in DOMAIN op THEN st.reg[op.s] ELSE Nothing
      B == IF "u" \in DOMAIN op THEN st.reg[op.u] ELSE Nothing
      written == op.op \notin {"eq"} /\ ~(op.op = "build" /\ DuplicateNodes(op.nodes))
      new ==
        CASE op.op = "build" -> [val |-> Interpolate(op.nodes, S), lo |-> LowEnd(op.nodes), hi |-> HighEnd(op.nodes),
                                 lin |-> TRUE, int |-> 0, tag |-> 0]
          [] op.op = "add"   -> Combined(A, B, LAMBDA a, b : a + b)
          [] op.op = "sub"   -> Combined(A, B, LAMBDA a, b : a - b)
          [] op.op = "shift" -> Mapped(A, LAMBDA v : v + op.l)
          [] op.op = "neg"   -> Mapped(A, LAMBDA v : -v)
          [] op.op = "mul"   -> Mapped(A, LAMBDA v : v * op.l)
          [] op.op = "div"   -> Mapped(A, LAMBDA v : v \div op.l)
          [] op.op = "abs"   -> [Mapped(A, AbsOf) EXCEPT !.lin = FALSE]
          [] OTHER           -> A
      fresh == [new EXCEPT !.int = res.integral[1], !.tag = IF op.op = "copy" THEN A.tag ELSE st.n + 1]
      after == [n |-> st.n + 1, reg |-> IF written THEN [st.reg EXCEPT ![op.r] = fresh] ELSE st.reg]
      R == after.reg[op.r]
      seen(r) == [x \in Xs |-> res.vals[r][x+1]]
  IN [ok |-> /\ \A r \in 1..3 : seen(r) = after.reg[r].val
             /\ (res.error # "") = (op.op = "build" /\ DuplicateNodes(op.nodes))
             /\ written => IntegralsOK(R, A, op, res)
             /\ MaximumOK(R, res)
             /\ IF R.lo > R.hi THEN res.domain = <<>> ELSE res.domain = <<R.lo, R.hi>>
             /\ \A r, s \in 1..3 :
                  /\ res.ne[r][s] = ~res.eq[r][s]
                  /\ after.reg[r].val # after.reg[s].val => ~res.eq[r][s]
                  /\ after.reg[r].tag = after.reg[s].tag => res.eq[r][s],
      st |-> after]
=============================================================================
