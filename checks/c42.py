from vlib import Check, Model, Part

INF = 2000000000
TCFG = ("SPECIFICATION Spec\nINVARIANTS Forest Minimal Agrees Export\n"
        "CHECK_DEADLOCK FALSE\nCONSTANTS MaxN = %d Levels = %s\n")
MODELS = [Model("MC_Spanning", TCFG % (4, "{1, 2}"), TCFG % (4, "{1, 2, 4}"), export=True)]


FORMS = ["plain", "transposed", "strided", "columns", "reversed", "float32", "int"]


def matrices(rng, tier, exported):
    out = []
    ex = exported["MC_Spanning"]
    cap = 150 if tier == "quick" else 1500
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    for D in ex:
        out.append({"k": "rips", "D": D, "d": rng.randrange(4), "form": rng.choice(FORMS)})
    for _ in range(150 if tier == "quick" else 2000):
        n = rng.randrange(1, 7)
        span = rng.choice([2, 4, 12, 60])
        D = [[0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i):
                D[i][j] = D[j][i] = rng.randrange(1, span + 1)
        if rng.random() < 0.2:
            for i in range(n):
                D[i][i] = rng.randrange(5)          # the diagonal plays no role
        out.append({"k": "rips", "D": D, "d": rng.randrange(4 if n < 6 else 3), "form": rng.choice(FORMS)})
    for _ in range(200 if tier == "quick" else 2000):
        n, m = rng.randrange(1, 5), rng.randrange(1, 5)
        reverse = rng.random() < 0.6
        v = rng.choice([1, 1, 0, 5])
        span = rng.choice([2, 5, 20])
        D = [[v - rng.randrange(span) if reverse else v + rng.randrange(span) for _ in range(m)] for _ in range(n)]
        out.append({"k": "bipartite", "D": D, "cols": m, "reverse": reverse, "v": v,
                    "u": rng.choice([INF, INF, 0, 7, -3]), "form": rng.choice(FORMS),
                    "defaults": reverse and v == 1 and rng.random() < 0.7})
    for _ in range(150 if tier == "quick" else 1500):
        n, d = rng.randrange(1, 8), rng.randrange(1, 4)
        span = rng.choice([2, 4, 8])
        P = [[rng.randrange(-span, span + 1) for _ in range(d)] for _ in range(n)]
        out.append({"k": "cloud", "P": P, "R": rng.randrange(1, 4 * span), "d": rng.choice([0, 1, 2, 3]) if n < 7 else rng.choice([1, 2]),
                    "form": rng.choice(FORMS[:5])})
    for f in ("vietoris_rips_from_matrix", "vietoris_rips_from_matrix_1d", "vietoris_rips_from_matrix_2d"):
        for shape in ([3], [2, 2, 2], [2, 3], [3, 2]):
            out.append({"k": "refused", "f": f, "shape": shape})
    for shape in ([3], [2, 2, 2]):
        out.append({"k": "refused", "f": "calculateZeroDimensionalPersistenceDiagramOfMatrix", "shape": shape})
        out.append({"k": "refused", "f": "cloud", "shape": shape})
    out.append({"k": "refused", "f": "float32", "shape": [3, 2]})
    return out


CHECK = Check(
    "C42",
    [Part("matrices", "bindings.py", "Trace_Spanning", matrices, accept="AcceptMatrix")],
    MODELS,
    assumptions=["weights, distances and points are integers, so that results are exact; distances of points are compared squared",
                 "weights of bipartite graphs respect the weight of the vertices"],
    rule="all small matrices of the model, plus random matrices and point arrays, each in one of seven memory layouts")
