import gen
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS RestrictedOK RolesOK OrdinaryOK\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS Vertices = %s MaxDim = 2 MaxLen = %d\n")
MODELS = [Model("MC_IntersectionHomology", CFG % ("{1, 2, 3}", 6), CFG % ("{1, 2, 3}", 7))]


def strata(rng, K, n):
    """Nested subcomplexes, the last one everything (usually)."""
    K = [tuple(s) for s in K]
    X, cur = [], set()
    d = max(len(s) for s in K) - 1
    for k in range(n - 1):
        extra = rng.choice([0, 0, 1, 1, 2, 4])
        low = [s for s in K if len(s) <= k + 1] if rng.random() < 0.8 else K
        cur = cur | gen.closure(rng.sample(low, min(extra, len(low))))
        X.append(sorted(cur))
    X.append(list(K))
    return X


def cases(rng, tier, exported):
    out = []
    for _ in range(900 if tier == "quick" else 8000):
        r = rng.random()
        if r < 0.35:
            K = gen.space(rng, rng.choice(sorted(gen.KNOWN_SPACES)))
        else:
            K = gen.any_complex(rng, "small") or {(4,)}
        F = [tuple(sorted(s)) for s in gen.random_filtration(rng, K)]
        d = max(len(s) for s in F) - 1
        gm = d >= 2 and rng.random() < 0.35
        n = d + 1
        X = strata(rng, F, n)
        if gm:
            if rng.random() < 0.9:
                X[-2] = X[-3]
            p = [0]
            for _ in range(rng.randrange(0, 4)):
                p.append(p[-1] + rng.choice([0, 1, 1]) if rng.random() < 0.9 else rng.randrange(0, 9))
        else:
            p = [rng.randrange(-2, 4) for _ in range(rng.randrange(0, 5))]
        if rng.random() < 0.03:
            X[-1] = X[0]
        out.append({"k": "intersection", "t": rng.choice("dfs"), "K": [list(s) for s in F], "W": gen.weights(rng, F), "gm": gm,
                    "p": p, "X": [[list(s) for s in x] for x in X]})
    return out


def partitions(rng, tier, exported):
    out = []
    for _ in range(300 if tier == "quick" else 3000):
        K = [list(s) for s in gen.random_filtration(rng, gen.any_complex(rng, "small"))]
        q = rng.choice([0, 0.2, 0.5, 0.8, 1])
        out.append({"k": "partition", "t": rng.choice("dfs"), "K": K, "W": gen.weights(rng, K), "phi": [rng.random() < q for _ in K]})
    return out


CHECK = Check(
    "C18",
    [Part("intersection homology", "constructions.cc", "Trace_IntersectionHomology", cases, accept="AcceptIntersection", units=(0, 1, 2, 3)),
     Part("partitions", "constructions.cc", "Trace_IntersectionHomology", partitions, accept="AcceptPartition", units=(0, 1, 2, 3))],
    MODELS,
    assumptions=["stratifications have one complex per dimension", "Goresky-MacPherson perversities start with zero"],
    rule="filtrations of random and known spaces with random nested strata and perversities, with and without dualisation")
