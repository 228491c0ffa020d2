import gen
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS ConeAcyclic SuspensionShift SuspensionConnected SkeletonKeeps SubdivisionKeeps\n"
       "ChainsOK CollapseOK Export\nPROPERTY StaysAdmissible\nCHECK_DEADLOCK FALSE\nCONSTANTS V = %s MaxDim = %d\n")
MODEL = Model("MC_Constructions", CFG % ("{0, 1, 2, 3}", 2), CFG % ("{0, 1, 2, 3}", 3), export=True)


def any_case(rng, exported, p=0.35):
    """A complex in some order, from the model or random."""
    if rng.random() < p:
        K = rng.choice(exported["MC_Constructions"])
        lab = gen.labels(rng, 4)
        K = [[lab[v] for v in s] for s in K]
    elif rng.random() < 0.15:
        K = wide(rng)
    else:
        K = [list(s) for s in gen.any_complex(rng, "small")] or [[5]]
    m = rng.randrange(3)
    if m == 0:
        K.sort(key=len)
    elif m == 1:
        K = [list(s) for s in gen.random_filtration(rng, K)]
    else:
        rng.shuffle(K)
    return K


def wide(rng):
    """Many vertices, few faces."""
    n = rng.randrange(9, 22)
    lab = gen.labels(rng, n)
    T = [[v] for v in lab] + [rng.sample(lab, rng.choice([2, 2, 2, 3])) for _ in range(rng.randrange(0, 6))]
    return [list(s) for s in gen.closure(T)]


def weights(rng, K):
    return [rng.randrange(-30, 60) for _ in K]


def cone(rng, tier, exported):
    out = []
    for _ in range(700 if tier == "quick" else 5000):
        K = any_case(rng, exported)
        out.append({"k": "cone", "t": rng.choice("dfs"), "K": K, "W": weights(rng, K), "a": rng.choice([1, 1, 2, -1, 0]),
                    "b": rng.randrange(-9, 9)})
    return out


def skeleton(rng, tier, exported):
    out = []
    for _ in range(700 if tier == "quick" else 5000):
        K = any_case(rng, exported)
        t2 = rng.randrange(-30, 60)
        out.append({"k": "skeleton", "t": rng.choice("dfs"), "K": K, "W": weights(rng, K), "t2": t2})
    return out


def subdivision(rng, tier, exported):
    out = []
    for _ in range(400 if tier == "quick" else 3000):
        K = any_case(rng, exported)
        while len(K) > 30 and max(map(len, K)) > 3:
            K = any_case(rng, exported)
        out.append({"k": "subdivision", "t": rng.choice("dfs"), "K": K, "W": weights(rng, K),
                    "f": rng.choice([[1, 1, 1, 1, 1, 1], [0, 2, 2, 2, 2, 2], [3, 1, 2, 5, 4, 7], [2, 0, 1, 3, 1, 2]])})
    return out


CHECK = Check(
    "C16",
    [Part("cones and suspensions", "constructions.cc", "Trace_Constructions", cone, accept="AcceptCone", units=(0, 1, 3, 4)),
     Part("skeleta and filters", "constructions.cc", "Trace_Constructions", skeleton, accept="AcceptSkeleton", units=(0, 1, 2, 3)),
     Part("subdivisions", "constructions.cc", "Trace_Constructions", subdivision, accept="AcceptSubdivision", units=(0, 1, 3, 4))],
    [MODEL],
    assumptions=["non-empty complexes", "new vertex labels do not exceed the range of the vertex type",
                 "labels of new vertices and the order of new simplices are not prescribed"],
    rule="every complex of the model under random labels and orders plus random complexes")
