from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS Laws Export
CONSTANTS MaxVertices = %d MaxWeight = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Laplacians", CFG % (4, 1), CFG % (4, 2), export=True)]


def names(rng, n):
    """Increasing vertex names, so that positions correspond to ranks."""
    return sorted(rng.sample(range(0, 4 * n + 2), n))


def graph(rng, n, edges, triangles=True):
    """A complex whose simplices are in a random order."""
    vs = names(rng, n)
    K = [([v], 0) for v in vs] + [([vs[a - 1], vs[b - 1]], w) for a, b, w in edges]
    if triangles and rng.random() < 0.4:
        have = {(a, b) for a, b, _ in edges} | {(b, a) for a, b, _ in edges}
        for a in range(1, n + 1):
            for b in range(a + 1, n + 1):
                for c in range(b + 1, n + 1):
                    if (a, b) in have and (a, c) in have and (b, c) in have and rng.random() < 0.5:
                        K.append(([vs[a - 1], vs[b - 1], vs[c - 1]], 9))
    if rng.random() < 0.5:
        rng.shuffle(K)
    return vs, [s for s, w in K], [w for s, w in K]


def random_graph(rng, n, top):
    p = rng.choice([0.4, 0.7, 1.0])
    return [(a, b, rng.randrange(1, top + 1)) for a in range(1, n + 1) for b in range(a + 1, n + 1) if rng.random() < p]


def cograph(rng, n, base=1):
    """Edges of a connected cograph, whose Laplacian has integral eigenvalues."""
    def build(vs, join):
        if len(vs) == 1:
            return []
        cut = rng.randrange(1, len(vs))
        a, b = vs[:cut], vs[cut:]
        out = build(a, rng.random() < 0.5) + build(b, rng.random() < 0.5)
        if join:
            out += [(x, y) for x in a for y in b]
        return out
    return build(list(range(1, n + 1)), True)


def cases(rng, tier, exported):
    quick = tier == "quick"
    graphs = [(g["n"], [tuple(e) for e in g["edges"]]) for g in exported["MC_Laplacians"]]
    graphs = rng.sample(graphs, min(len(graphs), 60 if quick else 800))
    for _ in range(60 if quick else 500):
        n = rng.randrange(2, 7)
        graphs.append((n, random_graph(rng, n, rng.choice([1, 3, 5]))))
    out = []
    for n, edges in graphs:
        vs, K, W = graph(rng, n, edges)
        t = rng.choice(["float", "double", "short"])
        out.append({"k": "matrices", "K": K, "W": W, "s": 10000, "type": t})
        if rng.random() < 0.3:
            signed = [w if len(s) == 1 else rng.choice([w, -w]) for s, w in zip(K, W)]
            out.append({"k": "matrices", "K": K, "W": signed, "s": 0, "type": t})
        degree = max([sum(w for a, b, w in edges if v in (a, b)) for v in range(1, n + 1)] + [1])
        q = rng.choice([1, 3, 8, 10])
        p = max(0, min(3, 2 * q // degree))
        if p == 0:
            p, q = 1, max(1, (degree + 1) // 2)
        out.append({"k": "heat", "K": K, "W": W, "p": p, "q": q, "type": "short" if t == "float" else t})
    for _ in range(30 if quick else 300):
        n = rng.randrange(2, 6 if quick else 7)
        w = rng.choice([1, 1, 2])
        vs, K, W = graph(rng, n, [(a, b, w) for a, b in cograph(rng, n)])
        out.append({"k": "interval", "K": K, "W": W, "n": rng.randrange(2, 7), "type": "double"})
    return out


def halves(rng, tier, exported):
    out = [{"k": "single", "K": [[3]], "W": [0], "order": [3], "type": "double"}]
    for _ in range(150 if tier == "quick" else 1500):
        kind = rng.choice(["path", "barbell", "any"])
        n = rng.randrange(2, 10)
        t = rng.choice(["double", "short"])
        if kind == "path":
            order = list(range(1, n + 1))
            rng.shuffle(order)
            edges = [(min(a, b), max(a, b), rng.randrange(1, 4)) for a, b in zip(order, order[1:])]
        elif kind == "barbell":
            h = rng.randrange(2, 5)
            n = 2 * h
            order = list(range(1, n + 1))
            rng.shuffle(order)
            A, B = order[:h], order[h:]
            edges = [(min(a, b), max(a, b), 8) for S in (A, B) for i, a in enumerate(S) for b in S[i + 1:]]
            edges.append((min(A[0], B[0]), max(A[0], B[0]), 1))
        else:
            order = list(range(1, n + 1))
            edges = random_graph(rng, n, 4)
        vs, K, W = graph(rng, n, edges)
        out.append({"k": kind, "K": K, "W": W, "order": [vs[i - 1] for i in order], "type": t})
    return out


CHECK = Check(
    "C33", [Part("matrices", "laplacians.cc", "Trace_Laplacians", cases, accept="AcceptLaplacian", shake=(300, -300, 400), limit=30),
            Part("bisection", "laplacians.cc", "Trace_Laplacians", halves, accept="AcceptBisection")], MODELS,
    assumptions=["pseudo-inverses are claimed for connected graphs with positive weights, sampling intervals for connected graphs with at least one edge",
                 "cographs, whose Laplacians have integral eigenvalues, decide sampling intervals",
                 "bisections are determined for weighted paths and for pairs of equal cliques joined by a light edge"],
    rule="all graphs with few vertices, random weighted graphs with up to six vertices (nine for bisections), simplices in any order")
