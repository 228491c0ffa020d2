from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS FindOK SortOK PairsOK Export
CONSTANTS MaxOps = %d Indices = {0, 1%s}
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Containers", CFG % (3, ""), CFG % (4, ""), export=True)]

LOOK = [{"op": "list", "r": 1}, {"op": "equal", "r": 1}]


def pairings(rng, tier, exported):
    quick = tier == "quick"
    ex = exported["MC_Containers"]
    out = []
    for ops in rng.sample(ex, min(len(ex), 400 if quick else 5000)):
        probes = [{"op": "find", "r": 1, "c": c, "d": d} for c in (0, 1) for d in (-1, 0, 1)] + [{"op": "findCreator", "r": 1, "c": c} for c in (0, 1, 2)]
        out.append({"k": "pairing", "t": rng.choice("sul"), "ops": ops + LOOK + probes})
    for _ in range(200 if quick else 2000):
        ops = []
        step, long = rng.choice([1, 1, 50, 13000]), rng.random() < 0.1
        for _ in range(rng.randrange(60, 120) if long else rng.randrange(3, 25)):
            o = rng.choice(["add"] * 6 + ["erase", "eraseOne", "sort", "copy", "find", "findCreator", "list", "equal"])
            op = {"op": o, "r": rng.randrange(1, 3)}
            if o in ("add", "find", "findCreator"):
                op["c"] = step * rng.randrange(0, 5)
                d = rng.randrange(-1, 5)
                op["d"] = d if d < 0 else step * d
            if o in ("erase", "eraseOne"):
                op["a"] = rng.randrange(0, 30 if long else 5)
                op["b"] = op["a"] + rng.randrange(0, 4)
            ops.append(op)
        out.append({"k": "pairing", "t": rng.choice("sul"), "ops": ops + LOOK})
    return out


def sparse(rng, tier, exported):
    out = []
    for _ in range(200 if tier == "quick" else 2000):
        n = rng.choice([0, 1, 2, 3, 4, 5, 40])
        rows = rng.choice([6, 6, 40, 300])
        ops = []
        for _ in range(rng.randrange(3, 25) * (1 if rows < 40 else 3)):
            o = rng.choice(["set"] * 4 + ["get"] * 4 + ["indices", "index", "index", "columns"])
            op = {"op": o, "c": rng.randrange(0, n + 1), "row": rng.randrange(0, rows)}
            if rows >= 40 and n:
                op["c"] %= min(n, 3)
            if o == "indices":
                op["map"] = [rng.randrange(0, 40) for _ in range(n if rng.random() < 0.8 else n + rng.choice([-1, 1]))] if n else []
            ops.append(op)
        out.append({"k": "sparse", "t": rng.choice("siu"), "n": n, "ops": ops})
    return out


COMPLEX = [[0], [1], [2], [3], [0, 1], [0, 2], [1, 2], [2, 3], [0, 1, 2]]


def conversions(rng, tier, exported):
    out = []
    for _ in range(150 if tier == "quick" else 1500):
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 40])
        P = [[rng.randrange(n), rng.randrange(-1, n)] for _ in range(rng.randrange(0, n + 1))]
        out.append({"k": "values", "t": rng.choice("sl"), "P": P, "v": [rng.randrange(0, 9) for _ in range(n)]})
        order = sorted(COMPLEX, key=lambda s: (len(s), rng.random())) if rng.random() < 0.5 else COMPLEX
        n = len(order)
        P = [[rng.randrange(n), rng.randrange(-1, n)] for _ in range(rng.randrange(0, 8))]
        out.append({"k": "complex", "t": rng.choice("sl"), "P": P, "K": order, "v": [rng.randrange(0, 9) for _ in range(n)]})
        top = rng.choice([2, 5, 30])
        f = [rng.randrange(top) for _ in range(rng.choice([2, 3, 4, 5, 6, 7, 8, 30]))]
        out.append({"k": "function", "t": rng.choice("sl"), "f": f, "dual": rng.random() < 0.5})
        p = [rng.randrange(3) for _ in range(rng.randrange(0, 4))]
        q = rng.choice([p[:], p[:-1], p + [rng.randrange(3)], [rng.randrange(3) for _ in p]])
        out.append({"k": "points", "t": rng.choice("sil"), "p": p, "q": q})
    return out


CHECK = Check(
    "C40", [Part("pairings", "containers.cc", "Trace_Containers", pairings, step=("StartPairings", "StepPairings")),
            Part("sparse", "containers.cc", "Trace_Containers", sparse, step=("StartSparse", "StepSparse")),
            Part("conversions", "containers.cc", "Trace_Conversions", conversions, accept="AcceptConversion", units=(0, 1, 2, 3))], MODELS,
    assumptions=["the index map of a sparse matrix is not prescribed after a map of the wrong length was refused",
                 "points on the diagonal of diagrams of one-dimensional functions are not compared"],
    rule="every short history of a pairing, random histories of two pairings and of sparse matrices, several index types; random pairings and functions")
