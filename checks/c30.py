from vlib import Check, Part
import gen
from c01 import MODEL, filtered


def graph(rng, tier):
    nv = rng.randrange(1, 12)
    K = gen.flag_complex(rng, nv, rng.choice([0.15, 0.3, 0.5]), 1, 60)
    vs = sorted({v for s in K for v in s})
    if rng.random() < 0.5:
        f = {v: rng.randrange(-8, 9) for v in vs}
    else:
        p = list(range(len(vs)))
        rng.shuffle(p)
        f = dict(zip(vs, p))
    sub = rng.random() < 0.6
    K = sorted(K)
    rng.shuffle(K)
    if sub:
        w = {s: max(f[v] for v in s) for s in K}
        F = sorted(K, key=lambda s: (w[s], len(s)))
    else:
        w = {s: min(f[v] for v in s) for s in K}
        F = sorted(K, key=lambda s: (-w[s], len(s)))
    return [list(s) for s in F], [w[s] for s in F]


def cases(rng, tier, exported):
    out = []
    small = exported["MC_Persistence"]
    if len(small) > 2000:
        small = rng.sample(small, 2000)
    for F in small:
        F = [s for s in F if len(s) <= 2]
        if F:
            ws = sorted(rng.randrange(-6, 7) for _ in F)
            out.append({"k": "hierarchy", "t": "du", "K": F, "W": ws})
    for _ in range(800 if tier == "quick" else 6000):
        F, W = graph(rng, tier)
        out.append({"k": "hierarchy", "t": rng.choice(["du", "fs"]), "K": F, "W": W})
    return out


CHECK = Check(
    "C30",
    [Part("hierarchy", "components.cc", "Trace_Components", cases, accept="AcceptHierarchy", units=(0, 1, 2, 3))],
    [MODEL],
    assumptions=["inputs are graphs (complexes of dimension at most one), the only part of a complex the hierarchy looks at",
                 "where both critical points are connected in the interlevel set the choice between two admissible parents is left open"],
    rule="filtrations of the model and sub-/superlevel set filtrations of random graphs with distinct and tied values")
