import c20
from vlib import Check, Part

INF = 2000000000


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Matching"]
    for A, B in (ex if len(ex) < 1000 else rng.sample(ex, 1000 if tier == "quick" else min(len(ex), 9000))):
        out.append({"k": "pointsets", "t": rng.choice("df"), "A": A, "B": B})
    for _ in range(700 if tier == "quick" else 6000):
        n = 60 if rng.random() < 0.04 else 16
        A, B = c20.pair(rng, rng.randrange(0, n), rng.randrange(0, n), rng.choice([2, 5, 20, 200]))
        if A and B and rng.random() < 0.2:          # points at infinity in both diagrams
            for P in (A, B):
                for _ in range(rng.randrange(1, 3)):
                    P.insert(rng.randrange(len(P) + 1), [rng.randrange(-9, 9), INF])
        out.append({"k": "pointsets", "t": rng.choice("df"), "A": A, "B": B})
    return out


CHECK = Check(
    "C22",
    [Part("point set distances", "diagrams.cc", "Trace_Matching", cases, accept="AcceptPointSets", units=(0, 1, 2, 3, 4))],
    [c20.MODEL],
    assumptions=["points at infinity occur in both diagrams or in none",
                 "the nearest neighbour distance is not checked if exactly one diagram is empty",
                 "for exactly one empty diagram the sum of minimum distances is infinite or undefined"],
    rule="all pairs of diagrams of the model plus random pairs, in both orders")
