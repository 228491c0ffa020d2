import c36
import gen
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS IgnoresSigns Reversal Births Ordered Counted Unrestricted Export\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS Size = 4 Weights = %s Shift = %d MaxEdges = %d MaxFacets = %d\n")
MODELS = [Model("MC_ComplexPrograms", CFG % ("{0, 1, 3, 4}", 2, 3, 3), CFG % ("{0, 1, 3, 4, 5}", 3, 4, 4), export=True)]
PROGRAMS = ("persistence_diagram_entropies", "stratified_graph_analysis", "wicked_triangulations")

SPACES = [[[1, 2, 3], [1, 2, 4], [1, 3, 4], [2, 3, 4]],                                  # sphere
          [[1, 2], [2, 3], [1, 3]], [[1, 2], [2, 3], [1, 3], [3, 4], [4, 5], [3, 5]],     # circles
          [[1, 2, 5], [2, 5, 6], [2, 3, 6], [3, 6, 4], [3, 4, 1], [4, 1, 5]],             # annulus or Moebius strip
          [[1, 2, 3, 4]], [[1, 2, 3], [3, 4, 5]], [[1, 2, 3], [1, 2, 4], [1, 2, 5]],
          [[1, 2, 3, 4], [2, 3, 4, 5]]]
PLANE = [[1, 2, 3], [1, 2, 4], [1, 3, 5], [1, 4, 6], [1, 5, 6], [2, 3, 6], [2, 4, 5], [2, 5, 6], [3, 4, 5], [3, 4, 6]]


def relabelled(rng, q):
    vs = sorted({v for s in q for v in s})
    to = dict(zip(vs, rng.sample(range(1, 40), len(vs))))
    q = [sorted(to[v] for v in s) for s in q]
    rng.shuffle(q)
    return q


def triangulations(rng, ex, big=False):
    tris = []
    for _ in range(1 if big else rng.randrange(1, 4)):
        r = rng.random()
        if big:
            q = PLANE
        elif r < 0.4:
            q = rng.choice(SPACES)
        elif r < 0.7:
            q = rng.choice(ex)
        else:
            q = [rng.sample(range(1, 7), rng.choice([2, 3, 3])) for _ in range(rng.randrange(1, 5))]
        tris.append(relabelled(rng, q))
    return {"k": "triangulations", "tris": tris, "form": [rng.randrange(6) for _ in tris]}


def edges(rng, matrix, signs):
    def w():
        return rng.choice([1, 2, 3, 5, rng.randrange(1, 9)]) * (rng.choice([1, -1]) if signs else 1)
    if matrix:
        h, n = rng.randrange(1, 4), rng.randrange(1, 4)
        return [[i, h + j, w()] for i in range(h) for j in range(n)]
    vs = rng.sample(range(20), rng.randrange(2, 7))
    es = [[u, v] for i, u in enumerate(vs) for v in vs[:i]]
    return [e + [w()] for e in rng.sample(es, rng.randrange(1, min(len(es), 7) + 1))]


def graphs(rng, given=None):
    default = given is None and rng.random() < 0.1
    matrix = given is None and rng.random() < 0.5
    c = {"k": "graphs", "matrix": matrix, "norm": rng.choice(["", "", "diagram", "abs", "minmax", "standardize"]), "by": rng.choice(["standard", "absolute"]),
         "rev": rng.random() < 0.5, "weights": rng.choice(["global", "local"]), "diagrams": rng.random() < 0.7, "default": default,
         "form": rng.randrange(2)}
    if default:
        c.update(norm="abs", by="absolute", rev=True, weights="global")
    if c["norm"] == "standardize":
        c.update(diagrams=False, by="standard")
    signs = not (c["norm"] == "diagram" and c["by"] == "absolute") and rng.random() < 0.7
    gs = []
    for _ in range(1 if given else rng.randrange(1, 4)):
        q = [list(e) for e in given] if given else edges(rng, matrix, signs)
        ws = [e[2] for e in q]
        lo, hi = min(ws), max(ws)
        if c["norm"] in ("abs", "minmax", "standardize") and lo == hi:
            return graphs(rng, given)
        if c["norm"] == "minmax" and c["by"] == "absolute" and hi - lo not in (1, 2, 4, 8, 16):
            return graphs(rng, given)
        if c["norm"] == "diagram" and c["by"] == "absolute" and lo < 0:
            return graphs(rng, given)
        if c["norm"] == "standardize" and (hi - lo) * len(ws) > 60:
            return graphs(rng, given)
        gs.append({"edges": q, "scale": {"minmax": hi - lo, "abs": max(abs(lo), abs(hi)), "diagram": hi - lo or 1}.get(c["norm"], 1)})
    c["graphs"] = gs
    return c


def entropies(rng):
    Ds = []
    while len(Ds) < rng.randrange(1, 4):
        D = c36.diagram(rng, rng.choice([6, 12, 20]), rng.randrange(2, 12))
        if 0 < sum(y - x for x, y in D) <= 512 and 0 < sum(c36.nearest(D)) <= 512 and c36.off_boundaries(D, 20):
            Ds.append(D)
    return {"k": "entropies", "Ds": Ds}


def runs(rng, tier, exported):
    ex = exported["MC_ComplexPrograms"]
    tris = [x["facets"] for x in ex if x["facets"]]
    ws = [x["w"] for x in ex if x["w"]]
    cap, many = (60, 30) if tier == "quick" else (1500, 400)
    out = [graphs(rng, q) for q in rng.sample(ws, min(cap, len(ws)))]
    out += [triangulations(rng, tris) for _ in range(many)]
    out += [graphs(rng) for _ in range(6 * many)] + [entropies(rng) for _ in range(many)]
    return out + [triangulations(rng, tris, True) for _ in range(1 if tier == "quick" else 10)]


CHECK = Check(
    "C46",
    [Part("runs", "programs.py", "Trace_ComplexPrograms", runs, accept="AcceptComplexPrograms", flags=PROGRAMS, extra=("-lflann", "-llz4"))],
    MODELS,
    assumptions=["triangulations have a positive dimension", "weights are small integers other than zero; edges of an edge list are distinct",
                 "weights are not all the same if they are normalised before the analysis", "points of zero persistence are ignored in diagrams of graphs"],
    rule="all signed graphs and complexes of the model, known triangulations, and random graphs, matrices and diagrams with random options")
