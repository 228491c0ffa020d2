import gen
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Metric Finite AtMostEdge Handshake GraphCurvature UnitWeights Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS N = %d Weights = %s\n")
MODELS = [Model("MC_Curvature", CFG % (4, "{1, 3}"), CFG % (4, "{1, 2, 5}"), export=True)]


def paths(rng, tier, exported):
    out = []
    ex = exported["MC_Curvature"]
    for E in ex:
        lab = gen.labels(rng, 4)
        K = [[v] for v in lab] + [[lab[a], lab[b]] for a, b, _ in E]
        W = [0] * 4 + [w for _, _, w in E]
        out.append({"k": "paths", "t": rng.choice("dfsiu"), "K": K, "W": W, "w": 0, "scale": 1})
    for _ in range(500 if tier == "quick" else 5000):
        n = rng.randrange(1, 13)
        lab = gen.labels(rng, n)
        p = rng.choice([0.1, 0.2, 0.4, 0.8])
        t = rng.choice("dfsiu")
        top = rng.choice([3, 10, 200])
        zero = rng.random() < 0.3
        K = [([v], rng.randrange(0, 9)) for v in lab]
        E = [([lab[i], lab[j]], 0 if zero and rng.random() < 0.4 else rng.randrange(1, top))
             for i in range(n) for j in range(i) if rng.random() < p]
        rng.shuffle(K)
        rng.shuffle(E)
        K += E
        if rng.random() < 0.4:
            rng.shuffle(K)
        if rng.random() < 0.3:
            have = {frozenset(s) for s, _ in K}
            for s in list(gen.closure([tuple(rng.sample(lab, min(3, n)))])):
                if len(s) == 3 and all(frozenset(f) in have for f in gen.faces(s) if len(f) == 2):
                    K.append((list(s), 1))
        out.append({"k": "paths", "t": t, "K": [s for s, _ in K], "W": [w for _, w in K],
                    "w": rng.randrange(1, 6) if zero and rng.random() < 0.5 else 0, "scale": 1 if t in "iu" else rng.choice([1, 2, 4])})
    return out


def degrees(rng, tier, exported):
    out = []
    for _ in range(700 if tier == "quick" else 6000):
        K = [list(s) for s in gen.any_complex(rng, rng.choice(["small", "small", "medium"]))] or [[7]]
        if rng.random() < 0.5:
            rng.shuffle(K)
        top = rng.choice([1, 2, 3, 3])
        P = [0] * len(K) if top == 1 else [rng.randrange(0, top) for _ in K]
        if rng.random() < 0.5:
            P = [max(0, min(2, P[i] + 1 if len(s) == 2 else P[i])) for i, s in enumerate(K)]
        out.append({"k": "degrees", "t": rng.choice("dfs"), "K": K, "W": [0] * len(K), "P": P})
    # Vertices with many neighbours: stars and fans of triangles
    for _ in range(6 if tier == "quick" else 40):
        n = rng.randrange(18, 30)
        lab = gen.labels(rng, n + 1)
        K = [[v] for v in lab] + [[lab[0], v] for v in lab[1:]]
        for i in range(1, n):
            if rng.random() < 0.5:
                K += [[lab[i], lab[i + 1]], [lab[0], lab[i], lab[i + 1]]]
        rng.shuffle(K)
        out.append({"k": "degrees", "t": rng.choice("dfs"), "K": K, "W": [0] * len(K), "P": [0] * len(K)})
    return out


def matrices(rng, tier, exported):
    out = []
    for _ in range(400 if tier == "quick" else 4000):
        big = rng.random() < 0.25
        n = rng.randrange(200, 420) if big else rng.randrange(1, 7)
        ops = []
        for _ in range(rng.randrange(2, 30)):
            r = rng.random()
            hi = n + (rng.random() < 0.1)
            if r < 0.45:
                ops.append({"op": "set", "i": rng.randrange(hi), "j": rng.randrange(hi), "v": rng.randrange(-999, 999)})
            elif r < 0.7:
                prev = [o for o in ops if o["op"] == "set"]
                if prev and rng.random() < 0.7:
                    o = rng.choice(prev)
                    i, j = (o["i"], o["j"]) if rng.random() < 0.5 else (o["j"], o["i"])
                else:
                    i, j = rng.randrange(hi), rng.randrange(hi)
                ops.append({"op": "get", "i": i, "j": j})
            elif r < 0.78:
                ops.append({"op": "copy"})
            elif r < 0.82:
                ops.append({"op": "assign"})
            elif r < 0.86:
                ops.append({"op": "swap"})
            elif r < 0.88:
                ops.append({"op": "fresh", "n": rng.randrange(1, 8)})
            elif not big:
                ops.append({"op": "all"})
        ops.append({"op": "get", "i": n - 1, "j": n - 1})
        if not big:
            ops.append({"op": "all"})
        out.append({"k": "matrix", "t": rng.choice("dsi"), "n": n, "ops": ops})
    return out


CHECK = Check(
    "C15",
    [Part("shortest paths", "graph.cc", "Trace_Curvature", paths, accept="AcceptPaths", units=(0, 1, 3, 4)),
     Part("degrees and curvature", "graph.cc", "Trace_Curvature", degrees, accept="AcceptDegrees"),
     Part("symmetric matrix", "graph.cc", "Trace_SymmetricMatrix", matrices, step=("StartMatrix", "StepMatrix"))],
    MODELS,
    assumptions=["integral (scaled) non-negative edge weights", "weights of curvatures are powers of four; weighted curvature is compared if all neighbours contribute with the same sign (always the case for graphs and for unit weights)",
                 "curvature is queried for simplices of dimension at least one"],
    rule="all weighted graphs of the model plus random graphs and complexes with random labels and orders")
