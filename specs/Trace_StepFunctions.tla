-------------------------- MODULE Trace_StepFunctions --------------------------
EXTENDS StepFunctions, StatefulTrace

S == 64                     \* values are multiples of 1/S
(* A register: values on the cells, whether the pieces are known, and them;   *)
(* fin: the function vanishes far away, so that it has an integral.           *)
(* pts: what the function may be at the boundary of two cells.                *)
Around(v) == [x \in 0..Cells+1 |-> (IF x > 0 /\ x <= Cells THEN {v[x]} ELSE IF x = 0 THEN {0} ELSE {v[Cells]})
                                  \cup (IF x < Cells THEN {v[x+1]} ELSE {0})]
Nothing == [val |-> [c \in 1..Cells |-> 0], known |-> TRUE, pcs |-> <<>>, fin |-> TRUE, pts |-> Around([c \in 1..Cells |-> 0])]
Sums(P, Q) == [x \in 0..Cells+1 |-> {p + q : p \in P[x], q \in Q[x]}]
Negated(P) == [x \in 0..Cells+1 |-> {-p : p \in P[x]}]
StartStep(in) == [r \in 1..3 |-> Nothing]

Mapped(R, f(_)) == [val |-> [c \in 1..Cells |-> f(R.val[c])], known |-> R.known, fin |-> R.fin,
                    pts |-> [x \in 0..Cells+1 |-> {f(y) : y \in R.pts[x]}],
                    pcs |-> [k \in 1..Len(R.pcs) |-> [R.pcs[k] EXCEPT !.y = f(R.pcs[k].y)]]]
(* Adds a scalar to all pieces; zeros may or may not be part of a piece if   *)
(* the pieces are not known.                                                 *)
ScaledPower(v, p) == IF p = 1 THEN v ELSE IF p = 2 THEN (v * v) \div S ELSE (v * v * v) \div (S * S)

Unary(R, op) ==
  CASE op.op = "neg" -> Mapped(R, LAMBDA v : -v)
    [] op.op = "mul" -> Mapped(R, LAMBDA v : v * op.l)
    [] op.op = "div" -> Mapped(R, LAMBDA v : v \div op.l)
    [] op.op = "abs" -> Mapped(R, AbsOf)
    [] op.op = "pow" -> Mapped(R, LAMBDA v : ScaledPower(v, op.p))
    [] OTHER -> R

Inside(R, c) == IF R.known THEN c \in DomainOf(R.pcs) ELSE R.val[c] # 0
ShiftedOK(R, l, v) == \A c \in 1..Cells :
  IF Inside(R, c) THEN v[c] = R.val[c] + l
  ELSE IF R.known THEN v[c] = 0
  ELSE v[c] \in {0, l}
Shifted(R, l, v) == [val |-> v, known |-> R.known, fin |-> R.fin,
                     pts |-> [x \in 0..Cells+1 |-> {0} \cup {y + l : y \in R.pts[x]}],
                     pcs |-> [k \in 1..Len(R.pcs) |-> [R.pcs[k] EXCEPT !.y = @ + l]]]

NormalisedOK(R, op, v) ==
  LET m == Max({R.pcs[k].y : k \in 1..Len(R.pcs)})
      one == Cardinality({R.pcs[k].y : k \in 1..Len(R.pcs)}) <= 1
  IN \A c \in 1..Cells :
       IF one THEN v[c] = R.val[c]
       ELSE IF c \in DomainOf(R.pcs) THEN v[c] * m = R.val[c] * (op.b - op.a) * S + op.a * S * m
       ELSE v[c] = 0

Near(a, b, t) == a - b <= t /\ b - a <= t

(* Integrals of higher order are those of the pieces, raised to the power *)
SquareOK(P, res) == Near(res.square, FoldLeft(LAMBDA s, p : s + ((p.y \div S) * (p.b - p.a))^2, 0, P), 1)

(* Queries for the register written last *)
QueriesOK(R, res) ==
  LET cellValues == {R.val[c] : c \in 1..Cells}
      ends == UNION {R.pts[x] : x \in 0..Cells+1}
  IN /\ R.fin => Near(res.integral, IntegralOf(R.val), 2)
     /\ R.fin => Near(res.absolute, IntegralOf(AbsolutesOf(R.val)), 2)
     /\ res.sup = res.max
     /\ res.halves = res.image /\ res.doubled = res.image
     /\ IF R.known
        THEN /\ res.max = (IF R.pcs = <<>> THEN 0 ELSE Max({R.pcs[k].y : k \in 1..Len(R.pcs)}))
             /\ \A x \in 0..Cells : res.points[x+1] \in AtPoint(R.pcs, 2*x)
             /\ SortSeq(res.domain, <) = SortSeq(FlattenSeq([k \in 1..Len(R.pcs) |-> <<R.pcs[k].a, R.pcs[k].b>>]), <)
             /\ SortSeq(res.image, <) = SortSeq([k \in 1..Len(R.pcs) |-> R.pcs[k].y], <)
        ELSE /\ \A v \in cellValues : v # 0 => v <= res.max
             /\ res.max \in cellValues \cup ends \cup {0}

StepStep(st, op, res) ==
  LET v == res.vals                     \* observed values of all registers
      A == IF "s" \in DOMAIN op THEN st[op.s] ELSE Nothing
      B == IF "u" \in DOMAIN op THEN st[op.u] ELSE Nothing
      seen == v[op.r]
      new ==
        CASE op.op = "build" -> [val |-> FromPieces(op.pieces), known |-> TRUE, pcs |-> op.pieces, fin |-> TRUE,
                                 pts |-> Around(FromPieces(op.pieces))]
          [] op.op = "pif"   -> [val |-> [c \in 1..Cells |-> S * Active(op.D)[c]], known |-> FALSE, pcs |-> <<>>,
                                 fin |-> \A k \in 1..Len(op.D) : op.D[k][2] # Forever,
                                 pts |-> Around([c \in 1..Cells |-> S * Active(op.D)[c]])]
          [] op.op = "add"   -> [val |-> SumOfFunctions(A.val, B.val), known |-> FALSE, pcs |-> <<>>, fin |-> A.fin /\ B.fin,
                                 pts |-> Sums(A.pts, B.pts)]
          [] op.op = "sub"   -> [val |-> SumOfFunctions(A.val, [c \in 1..Cells |-> -B.val[c]]), known |-> FALSE, pcs |-> <<>>, fin |-> A.fin /\ B.fin,
                                 pts |-> Sums(A.pts, Negated(B.pts))]
          [] op.op = "shift" -> Shifted(A, op.l, seen)
          [] op.op = "normalize" -> [val |-> seen, known |-> FALSE, pcs |-> <<>>, fin |-> A.fin, pts |-> Around(seen)]
          [] OTHER           -> Unary(A, op)
  IN [ok |-> /\ \A r \in 1..3 : r # op.r => v[r] = st[r].val
             /\ seen = new.val
             /\ op.op = "shift" => ShiftedOK(A, op.l, seen)
             /\ op.op = "normalize" => NormalisedOK(A, op, seen)
             /\ op.op = "build" => SquareOK(op.pieces, res)
             /\ QueriesOK(new, res),
      st |-> [st EXCEPT ![op.r] = new]]
=============================================================================
