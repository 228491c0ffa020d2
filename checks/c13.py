from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Contains_ Valid Recognised Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS Points = %s Unit = 2 MaxN = %d\n")
MODELS = [Model("MC_CoverTree", CFG % ("{0, 1, 2, 5, 9, 20}", 5), CFG % ("{0, 1, 2, 4, 9, 15, 40}", 6), export=True)]


def cases(rng, tier, exported):
    out = []
    ex = [tuple(o) for o in exported["MC_CoverTree"]]
    ex = list(dict.fromkeys(ex))
    cap = 800 if tier == "quick" else 6000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    for o in ex:
        out.append({"ops": [{"op": "insert", "unit": 2, "p": [x, 0]} for x in o]})
    for _ in range(600 if tier == "quick" else 6000):
        n = rng.randrange(1, 13)
        span = rng.choice([3, 8, 30, 500])
        line = rng.random() < 0.4
        unit = rng.choice([1, 2, 8])
        pts = set()
        while len(pts) < n and (not line or len(pts) < 2 * span):
            pts.add((rng.randrange(-span, span + 1), 0 if line else rng.randrange(-span, span + 1)))
        pts = sorted(pts)
        m = rng.randrange(3)
        if m:
            rng.shuffle(pts)
        else:
            pts.sort(reverse=rng.random() < 0.5)
        ops, k = [], 0
        while k < len(pts):
            if rng.random() < 0.15:
                j = rng.randrange(k + 1, len(pts) + 1)
                ops.append({"op": "range", "unit": unit, "ps": [list(p) for p in pts[k:j]]})
                k = j
            else:
                ops.append({"op": "insert", "unit": unit, "p": list(pts[k])})
                k += 1
        out.append({"ops": ops})
    for _ in range(12 if tier == "quick" else 100):
        n, span, unit = rng.choice([20, 30, 45]), rng.choice([8, 30, 500]), rng.choice([1, 2, 8, 64])
        pts = set()
        while len(pts) < n:
            pts.add((rng.randrange(-span, span + 1), rng.randrange(-span, span + 1)))
        pts = [list(p) for p in sorted(pts)]
        if rng.random() < 0.7:
            rng.shuffle(pts)
        k = rng.randrange(1, n - 2)
        out.append({"ops": [{"op": "range", "unit": unit, "ps": pts[:k]}, {"op": "insert", "unit": unit, "p": pts[k]},
                            {"op": "range", "unit": unit, "ps": pts[k + 1:]}]})
    return out


CHECK = Check(
    "C13",
    [Part("insertions", "covertree.cc", "Trace_CoverTree", cases, step=("StartTree", "StepTree"))],
    MODELS,
    assumptions=["points are distinct; the metric is L1 on integer points scaled by a power of two",
                 "parents are not visible, so a recorded level structure is accepted if some choice of parents is valid"],
    rule="all insertion orders of the model plus random point sets in sorted, reversed and random order; all views after "
         "every insertion")
