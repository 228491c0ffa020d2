from vlib import Check, Model, Part
import c09

CFG = ("SPECIFICATION Spec\nINVARIANTS Symmetric Zero Triangle RadiusIsNearest SelfIncluded SymmetricGraph Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS Coord = %s MaxN = %d MaxR = %d\n")
MODELS = [Model("MC_Neighbours", CFG % ("{0, 1}", 3, 3), CFG % ("{0, 1, 3}", 3, 5), export=True)]


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Neighbours"]
    if len(ex) > 5000:
        ex = rng.sample(ex, 5000)
    for x in ex:
        out.append({"k_": "query", "t": rng.choice("df"), "metric": rng.choice(["euclidean", "manhattan", "hamming"]),
                    "pts": x["pts"], "R": x["R"], "k": rng.randrange(0, len(x["pts"]) + 2)})
    for _ in range(900 if tier == "quick" else 8000):
        n = rng.choice([1, 2, 3, 5, 8, 12, 20])
        dim, span = rng.randrange(1, 8), rng.choice([1, 2, 5, 20, 100])
        metric = rng.choice(["euclidean", "manhattan", "hamming"])
        top = {"euclidean": 2 * span * dim, "manhattan": 4 * span * dim, "hamming": 2 * dim + 2}[metric]
        pts = c09.points(rng, n, dim, span)
        if rng.random() < 0.3 and n > 2:
            pts[1] = list(pts[0])
        out.append({"k_": "query", "t": rng.choice("df"), "metric": metric, "pts": pts,
                    "R": rng.randrange(0, top + 2), "k": rng.choice([0, 1, 2, n // 2, n, n + 1, rng.randrange(n + 1)])})
    # more points than a leaf of the tree holds
    for _ in range(20 if tier == "quick" else 150):
        n = rng.randrange(40, 90)
        out.append({"k_": "query", "t": rng.choice("df"), "metric": rng.choice(["euclidean", "manhattan", "hamming"]),
                    "pts": c09.points(rng, n, rng.randrange(1, 4), 10), "R": rng.randrange(1, 24), "k": rng.randrange(1, 20)})
    for c in out:
        c["hair"] = c09.hair(rng, c)
    return out


CHECK = Check(
    "C10",
    [Part("queries", "rips.cc", "Trace_Neighbours", cases, accept="AcceptQuery", units=(0, 1, 3), extra=c09.FLANN)],
    MODELS,
    assumptions=["point clouds have integer coordinates and radii are multiples of one half, so distances compare exactly"],
    rule="all point lists of the model plus random point clouds in up to seven dimensions, with duplicates, three metrics and "
         "both implementations")
