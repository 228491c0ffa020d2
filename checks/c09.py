import itertools
from vlib import Check, Model, Part
import gen

CFG = ("SPECIFICATION Spec\nINVARIANTS SameComplex FlagIsComplex WeightsMonotone MaxFromFacets SkeletonOK Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS N = %d MaxDim = %d\n")
MODELS = [Model("MC_Rips", CFG % (4, 3), CFG % (5, 4), export=True)]
FLANN = ("-lflann", "-llz4")


def graph_case(rng, lab, edges, d):
    mode = rng.randrange(4)

    def weight():
        return [rng.randrange(1, 9), rng.randrange(-9, 10), rng.randrange(-9, 0), 3][mode]
    items = [{"s": [v], "w": rng.choice([0, 0, rng.randrange(-9, 10)])} for v in lab]
    items += [{"s": rng.sample(list(e), 2), "w": weight()} for e in edges]
    if rng.random() < 0.2 and len(lab) >= 3:
        # a triangle of the graph may already be present
        tri = [t for t in itertools.combinations(sorted(lab), 3)
               if all(tuple(sorted(p)) in {tuple(sorted(e)) for e in edges} for p in itertools.combinations(t, 2))]
        if tri:
            items.append({"s": list(rng.choice(tri)), "w": 0})
    rng.shuffle(items)
    return {"k_": "expansion", "t": rng.choice(["du", "fs", "di"]), "scale": rng.choice([1, 4]), "items": items,
            "d": d, "kmin": rng.randrange(0, d + 1), "f": [rng.randrange(-9, 10) for _ in lab]}


def expansions(rng, tier, exported):
    out = []
    ex = exported["MC_Rips"]
    n = 4 if tier == "quick" else 5
    if len(ex) > 4000:
        ex = rng.sample(ex, 4000)
    for g in ex:
        lab = gen.labels(rng, n)
        out.append(graph_case(rng, lab, [tuple(lab[v] for v in e) for e in g["edges"]], g["d"]))
    for _ in range(500 if tier == "quick" else 4000):
        n = rng.choice([1, 2, 3, 5, 6, 7, 8, 9])
        lab = gen.labels(rng, n)
        p = rng.choice([0.1, 0.3, 0.6, 0.9, 1.0])
        edges = [e for e in itertools.combinations(lab, 2) if rng.random() < p]
        out.append(graph_case(rng, lab, edges, rng.randrange(0, 5 if n < 8 else 4)))
    for _ in range(6 if tier == "quick" else 60):
        n = rng.randrange(15, 26)
        lab = gen.labels(rng, n)
        p = rng.choice([0.1, 0.2, 0.3])
        edges = [e for e in itertools.combinations(lab, 2) if rng.random() < p]
        out.append(graph_case(rng, lab, edges, 3))
    # High dimensions
    for n in (7, 8, 9):
        lab = gen.labels(rng, n)
        edges = list(itertools.combinations(lab, 2))
        out.append(graph_case(rng, lab, edges if rng.random() < 0.5 else rng.sample(edges, len(edges) - 1), n - rng.randrange(2)))
    return out


def hair(rng, c):
    """Thresholds of double precision are changed by a factor of 1 +- 10^-9 at times."""
    return 0 if c["t"] == "f" else rng.choice([0, 0, 1, -1])


def points(rng, n, dim, span):
    return [[rng.randrange(-span, span + 1) for _ in range(dim)] for _ in range(n)]


def clouds(rng, tier, exported):
    out = []
    for _ in range(600 if tier == "quick" else 5000):
        n, dim = rng.randrange(1, 10), rng.randrange(1, 6)
        span = rng.choice([1, 2, 5, 20])
        metric = rng.choice(["euclidean", "manhattan", "hamming"])
        top = {"euclidean": 2 * span * dim, "manhattan": 2 * span * dim * 2, "hamming": 2 * dim + 2}[metric]
        out.append({"k_": "rips", "t": rng.choice("df"), "metric": metric, "pts": points(rng, n, dim, span),
                    "R": rng.randrange(1, top + 2), "d": rng.randrange(0, 4), "f": [rng.randrange(-20, 21) for _ in range(n)]})
    for _ in range(8 if tier == "quick" else 60):
        n = rng.randrange(20, 40)
        out.append({"k_": "rips", "t": rng.choice("df"), "metric": rng.choice(["euclidean", "manhattan"]),
                    "pts": points(rng, n, 2, 20), "R": rng.randrange(8, 24), "d": 2,
                    "f": [rng.randrange(-20, 21) for _ in range(n)]})
    for c in out:
        c["hair"] = hair(rng, c)
    return out


CHECK = Check(
    "C09",
    [Part("expansion", "rips.cc", "Trace_Rips", expansions, accept="AcceptExpansion", units=(0, 1, 3, 4), extra=FLANN),
     Part("clouds", "rips.cc", "Trace_Rips", clouds, accept="AcceptRips", units=(0, 1, 3), extra=FLANN)],
    MODELS,
    assumptions=["point clouds have integer coordinates and thresholds are multiples of one half, so distances compare exactly"],
    rule="all graphs of the model times all dimensions plus random weighted graphs with arbitrary labels; random point "
         "clouds with three metrics and both neighbour searches")
