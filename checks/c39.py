from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS Counts SelfFirst KeepsConstants WithinRange Semidefinite Collinear Export
CONSTANTS Side = %d MaxPoints = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Estimators", CFG % (1, 4), CFG % (2, 4), export=True)]


def points(rng, n, d, top):
    return [[rng.randrange(top) for _ in range(d)] for _ in range(n)]


def manhattan(p, q):
    return sum(abs(a - b) for a, b in zip(p, q))


def cases(rng, tier, exported):
    quick = tier == "quick"
    out = []
    kind = lambda: {"type": rng.choice(["float", "double"]), "flann": rng.random() < 0.5}
    small = [p for p in exported["MC_Estimators"] if p]
    small = rng.sample(small, min(len(small), 80 if quick else 800))
    clouds = small + [points(rng, rng.choice([*range(2, 12), 25]), rng.randrange(1, 4), rng.choice([2, 5, 30])) for _ in range(80 if quick else 800)]
    for P in clouds:
        if len(P) >= 2:
            out.append(dict(kind(), k="correlation", P=P, distance=rng.choice(["manhattan", "euclidean"])))
        out.append(dict(kind(), k="components", P=[[x % 12 for x in p] for p in P[:11]]))
    for _ in range(40 if quick else 400):
        n = rng.randrange(2, 7)
        a = [rng.randrange(-8, 9) for _ in range(n)]
        b = [rng.randrange(-12, 1) for _ in range(n if rng.random() < 0.9 else n + 1)]
        if len(a) != len(b) or len(set(a)) > 1:
            out.append({"k": "slope", "a": a, "b": b, "type": "double"})
    for _ in range(120 if quick else 1200):
        n = rng.randrange(3, 12)
        P = points(rng, n, rng.randrange(1, 4), rng.choice([5, 30]))
        k = rng.choice(["simple", "regression", "likelihood"])
        if k == "simple":
            out.append(dict(kind(), k=k, P=P, n=rng.randrange(1, n)))
        else:
            a, b = rng.randrange(1, n + 1), rng.randrange(1, n + 1)
            if k == "regression" and max(a, b) > 6:
                a, b = min(a, 3), min(b, 6)
            if rng.random() < 0.05:
                a = 0
            out.append(dict(kind(), k=k, P=P, n=a, m=b))
    while sum(c["k"] == "smooth" for c in out) < (60 if quick else 600):
        n = rng.choice([*range(1, 8), 20])
        k = rng.randrange(0, 4) if rng.random() < 0.8 else n - 1
        P = points(rng, n, rng.choice([1, 2]), rng.choice([3, 5]))
        near = [sorted(manhattan(p, q) for q in P) for p in P]
        if k + 1 > n or any(d[k] > 6 or (len(d) > k + 1 and d[k] == d[k + 1]) for d in near):
            continue
        out.append(dict(kind(), k="smooth", P=P, n=k, v=[rng.randrange(20) for _ in P]))
    for _ in range(20 if quick else 200):
        d = rng.randrange(2, 5)
        axes = [rng.randrange(1, 40) for _ in range(d)]
        # Unique largest gap
        gaps = sorted((b - a for a, b in zip(sorted(axes), sorted(axes)[1:])), reverse=True)
        if len(gaps) > 1 and gaps[0] == gaps[1] or gaps[0] == 0:
            continue
        P = [[s * a if i == j else 0 for j in range(d)] for i, a in enumerate(axes) for s in (1, -1)]
        out.append(dict(kind(), k="gap", P=P, n=2 * d - 1, axes=axes))
        v = [rng.randrange(-2, 3) for _ in range(d)]
        if not any(v):
            v[0] = 1
        m = rng.randrange(4, 10)
        P = [[x * a + 7 for a in v] for x in rng.sample(range(-20, 21), m)]
        out.append(dict(kind(), k="line", P=P, n=rng.randrange(2, m)))
    while sum(c["k"] == "sphere" for c in out) < (60 if quick else 600):
        d = rng.randrange(1, 4)
        u = [rng.randrange(-12, 13) for _ in range(d + 1)] + [rng.choice([-3, -2, -1, 1, 2, 3])]
        out.append({"k": "sphere", "u": u, "first": rng.random() < 0.5, "type": "double"})
    for _ in range(10 if quick else 60):
        d = rng.choice([2, 3])
        out.append({"k": "curvature", "points": 40 if d == 2 else 120, "d": d, "r": rng.randrange(2, 20), "c": [rng.randrange(-3, 4) for _ in range(3)],
                    "n": rng.randrange(8, 16) if d == 2 else rng.randrange(14, 24), "seed": rng.randrange(1 << 20), "type": "double"})
    for c in out:
        if c["k"] in ("simple", "regression", "likelihood", "gap", "line", "correlation"):
            c["unit"] = rng.choice([0, 0, 1, 3])
    return out


CHECK = Check(
    "C39", [Part("estimators", "estimators.cc", "Trace_Estimators", cases, accept="AcceptEstimate", extra=("-lflann", "-llz4"), shake=(900, -900, 1200))], MODELS,
    assumptions=["dimension estimates whose denominator vanishes are not claimed", "smoothing is decided if no two candidates for the last neighbour are equally far away",
                 "principal components are claimed up to a common factor of the squared singular values"],
    rule="small and random point clouds with integral coordinates, two search structures, float and double")
