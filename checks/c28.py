from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS AllWellFormed Export
PROPERTIES Isolation LastWrite Lengths
CONSTANTS MaxN = %d MaxD = %d Values = {1, 2} MaxCalls = %d
CHECK_DEADLOCK FALSE
"""
DESC = """SPECIFICATION Spec
INVARIANTS LensTotal NearestAll MaxBelowSum Reversed Export
CONSTANTS Side = %d MaxPoints = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_PointCloud", CFG % (2, 1, 3), CFG % (2, 2, 3), export=True),
          Model("MC_Descriptors", DESC % (2, 3), DESC % (2, 4), export=True)]


def observe(rng, ops):
    """Random reads after each call."""
    out = []
    for o in ops:
        o = dict(o)
        o["via"] = rng.randrange(3)
        out.append(o)
        if rng.random() < 0.4:
            k = rng.randrange(3)
            if k == 0:
                out.append({"op": "get", "r": rng.randrange(1, 4), "i": rng.randrange(0, 4), "via": rng.randrange(2)})
            elif k == 1:
                out.append({"op": "equal", "a": rng.randrange(1, 4), "b": rng.randrange(1, 4)})
            else:
                out.append({"op": "all", "r": rng.randrange(1, 4), "via": rng.randrange(2)})
    for r in (1, 2, 3):
        out.append({"op": "all", "r": r, "via": rng.randrange(2)})
    for a, b in ((1, 2), (2, 1), (2, 3), (1, 3)):
        out.append({"op": "equal", "a": a, "b": b})
    return out


def random_history(rng):
    ops = []
    d = rng.randrange(1, 5)
    size = {1: (0, 0), 2: (0, 0), 3: (0, 0)}        # rough bookkeeping: prefers valid arguments
    top = rng.choice([3, 3, 8, 8, 35])
    for _ in range(rng.randrange(3, 30)):
        r, a, b = (rng.randrange(1, 4) for _ in range(3))
        k = rng.random()
        if k < 0.2 or size[r][0] == 0:
            n = rng.randrange(0, top)
            e = d if rng.random() < 0.9 else rng.randrange(1, 5)
            ops.append({"op": "new", "r": r, "n": n, "d": e})
            size[r] = (n, e)
        elif k < 0.6:
            n, e = size[r]
            i = rng.randrange(n) if rng.random() < 0.9 else n + rng.randrange(3)
            e = e if rng.random() < 0.9 else rng.randrange(1, 6)
            ops.append({"op": "set", "r": r, "i": i, "x": [rng.randrange(-3, 4) for _ in range(e)]})
        elif k < 0.75:
            ops.append({"op": rng.choice(["copy", "assign"]), "r": r, "a": a})
            size[r] = size[a]
        elif k < 0.82:
            ops.append({"op": "move", "r": r, "a": a})
            if r != a:
                size[r], size[a] = size[a], (0, 0)
        elif k < 0.88:
            ops.append({"op": "swap", "r": r, "a": a})
            size[r], size[a] = size[a], size[r]
        else:
            ops.append({"op": "concat", "r": r, "a": a, "b": b})
            if size[a][1] == size[b][1] and size[a][0] + size[b][0] < 40:
                size[r] = (size[a][0] + size[b][0], size[a][1])
    return ops


def histories(rng, tier, exported):
    ex = exported["MC_PointCloud"]
    out = [{"t": rng.choice("df"), "ops": observe(rng, o)} for o in rng.sample(ex, min(len(ex), 800 if tier == "quick" else 8000))]
    for _ in range(500 if tier == "quick" else 4000):
        out.append({"t": rng.choice("df"), "ops": observe(rng, random_history(rng))})
    return out


def descriptors(rng, tier, exported):
    out = []

    def case(P):
        m = rng.choice(["euclidean", "manhattan"])
        order = rng.choice([0, 2, 4]) if m == "euclidean" else rng.choice([0, 1, 2, 3])
        out.append({"P": P, "d": len(P[0]), "m": m, "order": order, "k": rng.randrange(1, len(P) + 1)})
    ex = exported["MC_Descriptors"]
    for P in rng.sample(ex, min(len(ex), 400 if tier == "quick" else 4000)):
        case(P)
    for _ in range(300 if tier == "quick" else 2000):
        d, r = rng.choice([1, 1, 2, 3]), rng.choice([2, 6])
        case([[rng.randrange(-r, r) for _ in range(d)] for _ in range(rng.choice([*range(1, 12), 30]))])
    return out


CHECK = Check(
    "C28",
    [Part("histories", "clouds.cc", "Trace_PointCloud", histories, step=("StartCloud", "StepCloud"), units=(0, 1, 2, 3, 4)),
     Part("descriptors", "clouds.cc", "Trace_Descriptors", descriptors, accept="AcceptDescriptors", units=(0, 1, 3))],
    MODELS,
    assumptions=["coordinates are integers", "a cloud that has been moved from is only assigned to"],
    rule="all histories of calls and all point sets of the models, plus random longer ones")
