from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS EntropyBounds UniformEntropy DiagonalPoints Doubling CountsAll OneCell EnvelopeDominates Export
CONSTANTS Side = %d MaxPoints = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Summaries", CFG % (2, 4), CFG % (3, 4), export=True)]


def diagram(rng, top, n):
    D = []
    for _ in range(n):
        x = rng.randrange(top)
        D.append([x, rng.randrange(x, top + 1)])
    if rng.random() < 0.3 and D:
        D += [rng.choice(D) for _ in range(rng.randrange(3))]
    return D


def nearest(D):
    return [min((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2 for j, q in enumerate(D) if j != i) for i, p in enumerate(D)]


def off_boundaries(D, n):
    """No point is on the boundary of a cell, apart from one extreme point."""
    for k in (0, 1):
        v = [p[k] for p in D]
        lo, hi = min(v), max(v)
        # Rounding separates points that share an extreme coordinate.
        if any(len({tuple(p) for p in D if p[k] == e}) > 1 for e in (lo, hi)):
            return False
        if any(lo < x < hi and ((x - lo) * (n - 1)) % (hi - lo) == 0 for x in v):
            return False
    return True


def clusters(rng):
    m = rng.randrange(1, 6)
    base = [[100 * j + rng.randrange(30), 0] for j in range(m)]
    for p in base:
        p[1] = p[0] + rng.randrange(40, 70)
    if rng.random() < 0.3:
        base = [[p[1], p[0]] for p in base]
    Ds = []
    for _ in range(rng.randrange(1, 7)):
        D = [[x + rng.randrange(-2, 3), y + rng.randrange(-2, 3)] for x, y in base]
        for _ in range(rng.choice([0, 0, 1, 2])):
            z = rng.randrange(500)
            D.append([z, z])
        rng.shuffle(D)
        Ds.append(D)
    return Ds


def cases(rng, tier, exported):
    small = exported["MC_Summaries"]
    if tier == "quick":
        small = rng.sample(small, min(400, len(small)))
    more = [diagram(rng, rng.choice([3, 6, 12, 20]), rng.choice([*range(14), 40])) for _ in range(250 if tier == "quick" else 2500)]
    out = []
    for D in small + more + [[]]:
        out.append({"k": "envelope", "D": D, "t": rng.choice(["float", "double"]), "unpaired": rng.choice([0, 0, 1, 2])})
        if not D or 0 < sum(y - x for x, y in D) <= 512:
            out.append({"k": "entropy", "D": D})
        if len(D) >= 2 and 0 < sum(nearest(D)) <= 512:
            out.append({"k": "area", "D": D})
        n = rng.choice([2, 3, 5, 9, 17])
        if not D or off_boundaries(D, n):
            out.append({"k": "grid", "D": D, "n": n})
    for _ in range(100 if tier == "quick" else 800):
        out.append({"k": "mean", "Ds": clusters(rng), "d": rng.randrange(3)})
    return out


CHECK = Check(
    "C36",
    [Part("summaries", "summaries.cc", "Trace_Summaries", cases, accept="AcceptSummary",
          extra=("-lflann", "-llz4"), shake=(8, -8, 20), units=(0, 1, 3))],
    MODELS,
    assumptions=["coordinates are integers; probabilities of entropies are fractions of integers up to 512"],
    rule="small diagrams of the model and random ones with up to sixteen points; means of diagrams with well separated clusters")
