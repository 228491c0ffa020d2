--------------------------- MODULE Trace_Programs ---------------------------
(* Validates recorded runs of programs that work on the same directory.      *)
EXTENDS Programs, StatefulTrace

StartPrograms(in) == NoFiles

Updated(dir, new) == [n \in DOMAIN dir \cup DOMAIN new |-> IF n \in DOMAIN new THEN new[n] ELSE dir[n]]
Single(n, q) == [x \in {n} |-> q]
SameBag(q, r) == BagOf(q) = BagOf(r)
(* Fractions a / b are recorded as multiples of 1/1000 *)
Roughly(x, a, b) == Magnitude((x * b) - (1000 * a)) <= b

(* Every program ends regularly *)
GraphOK(op, res) ==
  LET fs == GraphFiles(op) IN
  /\ Len(res.files) = Len(fs)
  /\ \A k \in 1..Len(fs) : res.files[k].d = fs[k].d /\ SameBag(res.files[k].pts, fs[k].pts)
Written(op, res) ==
  [n \in {[b |-> op.b, s |-> "d", d |-> res.files[k].d] : k \in 1..Len(res.files)} |->
     res.files[CHOOSE k \in 1..Len(res.files) : res.files[k].d = n.d].pts]

StatOK(dir, op, res) ==
  /\ Len(res.rows) = Len(op.files)
  /\ \A k \in 1..Len(op.files) :
       LET n == op.files[k]
           r == res.rows[k]
           q == IF op.invalid # -1 THEN Ignoring(dir[n], op.invalid) ELSE dir[n]
       IN /\ r.file = n /\ r.name = n.b /\ r.dim = Dimension(n) /\ r.n = Len(q) /\ r.power = op.p
          /\ r.total = TotalOf(q, op.p) /\ r.inf = LargestOf(q)
          /\ q # <<>> => Roughly(r.normalised, TotalOf(q, op.p), Len(q)) /\ Roughly(r.average, Sum([j \in 1..Len(q) |-> q[j][2] - q[j][1]]), Len(q))

SignatureOK(dir, op, res) ==
  /\ Len(res.rows) = Len(op.files)
  /\ \A k \in 1..Len(op.files) :
       LET q == LongOnes(dir[op.files[k]], op.filter)
           w == Resized(Signature(q), op.keep)
       IN /\ Len(res.rows[k]) = Len(w)
          /\ \A j \in 1..Len(w) : IF op.norm THEN Roughly(res.rows[k][j], w[j], SpanOf(q)) ELSE res.rows[k][j] = 1000 * w[j]

IndicatorOK(dir, op, res) ==
  LET f == [k \in 1..Len(op.files) |-> Counts(dir[op.files[k]])]
      total(c) == Sum([k \in 1..Len(f) |-> f[k][c]])
  IN /\ Len(res.vals) = Len(f)
     /\ \A k \in 1..Len(f) : res.vals[k] = [c \in 1..Cells |-> f[k][c]]
     /\ op.mean => \A c \in 1..Cells : Roughly(res.mean[c], total(c), Len(f))

Divisors(f) ==
  LET I == {f[c] : c \in 1..Cells} \ {0} IN
  CASE I = {} -> {1} [] Cardinality(I) = 1 -> I \cup {1} [] OTHER -> {Max(I)}

(* x hundredths *)
DistanceOK(dir, op, a, b, x) ==
  LET d == Distance(dir, op, a, b) IN
  CASE d = Forever -> x = Forever
    [] op.norm -> \* the functions are divided by their largest value, unless they are constant
       LET f == Counts(MemberOf(dir, op.files, a, 0, op))
           g == Counts(MemberOf(dir, op.files, b, 0, op))
           s(hf, hg) == Sum([c \in 1..Cells |-> Magnitude((f[c] * hg) - (g[c] * hf))])
       IN \E hf \in Divisors(f), hg \in Divisors(g) : Magnitude((x * hf * hg) - (100 * s(hf, hg))) <= hf * hg
    [] op.by = "indicator" -> x = 100 * d
    [] op.by = "hausdorff" /\ op.p = 1 -> x = 100 * d
    [] op.by = "hausdorff" /\ op.p = 2 -> Magnitude((x * x) - (10000 * d)) <= (2 * x) + 2
    [] op.by = "wasserstein" /\ op.p = 1 -> x = 50 * d
    [] OTHER -> Magnitude((x * x) - (2500 * d)) <= (2 * x) + 2
DistancesOK(dir, op, res) ==
  LET g == Groups(op.files)
      n == Len(g)
  IN /\ Len(res.rows) = n
     /\ \A i \in 1..n : Len(res.rows[i]) = n /\ res.rows[i][i] = 0
     /\ \A i, j \in 1..n : i < j =>
          /\ res.rows[i][j] = res.rows[j][i]
          /\ DistanceOK(dir, op, g[i], g[j], IF op.kernel THEN -res.rows[i][j] ELSE res.rows[i][j])

StepPrograms(dir, op, res) ==
  CASE op.k = "put" -> [ok |-> TRUE, st |-> Updated(dir, Single(op.name, op.pts))]
    [] res.rc # 0 -> [ok |-> FALSE, st |-> dir]
    [] op.k = "graph" -> [ok |-> GraphOK(op, res), st |-> Updated(dir, Written(op, res))]
    [] op.k = "function" -> [ok |-> SameBag(res.pts, FunctionPoints(op.f, op.super)), st |-> Updated(dir, Single(op.name, res.pts))]
    [] op.k = "stat" -> [ok |-> StatOK(dir, op, res), st |-> dir]
    [] op.k = "sign" -> [ok |-> SignatureOK(dir, op, res), st |-> dir]
    [] op.k = "pif"  -> [ok |-> IndicatorOK(dir, op, res), st |-> dir]
    [] op.k = "dist" -> [ok |-> DistancesOK(dir, op, res), st |-> dir]
=============================================================================
