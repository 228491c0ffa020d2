from vlib import Check, Model, Part
import c09

CFG = ("SPECIFICATION Spec\nINVARIANTS TriangleOK Below0 Complexes_ MonotoneOK Duality Once Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS N = 3 Entries = %s MaxR = %d\n")
MODELS = [Model("MC_Dowker", CFG % ("{0, 1, 3}", 4), CFG % ("{0, 1, 2, 4}", 6), export=True)]


def dowker(rng, tier, exported):
    out = []
    ex = exported["MC_Dowker"]
    cap = 1200 if tier == "quick" else 8000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    for x in ex:
        out.append({"k": "dowker", "t": rng.choice("df"), "W": x["W"], "R": x["R"], "scale": rng.choice([1, 2]),
                    "d": rng.randrange(0, 3)})
    for _ in range(350 if tier == "quick" else 3000):
        n = rng.choice([1, 2, 4, 4, 5, 5, 6, 6, 9])
        p = rng.choice([0.1, 0.3, 0.6, 1.0]) if n < 9 else 0.2
        top = rng.choice([2, 5, 30])
        W = [[rng.randrange(1, top) if i != j and rng.random() < p else 0 for j in range(n)] for i in range(n)]
        if rng.random() < 0.3:
            for i in range(n):
                for j in range(i):
                    W[i][j] = W[j][i]
        out.append({"k": "dowker", "t": rng.choice("df"), "W": W, "R": rng.randrange(0, 2 * top), "scale": rng.choice([1, 2]),
                    "d": rng.randrange(0, 4)})
    for c in out:
        c["hair"] = c09.hair(rng, c) if c["R"] else 0
    return out


def witness(rng, tier, exported):
    out = []
    for _ in range(700 if tier == "quick" else 6000):
        N, dim = rng.choice([*range(1, 13), 30]), rng.randrange(1, 4)
        span = rng.choice([1, 2, 5, 20])
        metric = rng.choice(["euclidean", "manhattan", "hamming"])
        n = rng.randrange(1, min(N, 7) + 1)
        out.append({"k": "witness", "t": rng.choice("df"), "metric": metric, "pts": c09.points(rng, N, dim, span),
                    "L": rng.sample(range(N), n), "nu": rng.choice([0, 1, 2, 2, 2, n, rng.randrange(0, n + 1)]),
                    "R": 0 if metric == "euclidean" else rng.randrange(0, span + 1), "d": rng.randrange(0, 4)})
        if out[-1]["nu"] > n:
            out[-1]["nu"] = n
        out[-1]["hair"] = c09.hair(rng, out[-1]) if out[-1]["R"] else 0
    return out


def landmarks(rng, tier, exported):
    out = []
    for _ in range(250 if tier == "quick" else 2000):
        N = rng.choice([*range(1, 15), 40, 70])
        out.append({"k": "landmarks", "t": rng.choice("df"), "metric": rng.choice(["euclidean", "manhattan", "hamming"]),
                    "pts": c09.points(rng, N, rng.randrange(1, 4), rng.choice([2, 9, 50])), "n": rng.randrange(1, N + 1)})
    return out


CHECK = Check(
    "C12",
    [Part("dowker", "witness.cc", "Trace_Witness", dowker, accept="AcceptDowker", units=(0, 1, 3, 4)),
     Part("witness", "witness.cc", "Trace_Witness", witness, accept="AcceptWitness", units=(0, 1, 3)),
     Part("landmarks", "witness.cc", "Trace_Witness", landmarks, accept="AcceptLandmarks", units=(0, 1, 3))],
    MODELS,
    assumptions=["integer weights and coordinates, so that sums and comparisons are exact; relaxation is zero for the "
                 "Euclidean metric", "nu is at most the number of landmarks"],
    rule="all weight matrices of the model plus random ones up to six nodes; random point clouds with random landmarks")
