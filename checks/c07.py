from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Total Strict FaceLess Transitive BoundaryBoundary FacetCount Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS V = {0, 1, 2, 3} MaxLen = %d\n")
MODELS = [Model("MC_Simplex", CFG % 4, CFG % 5, export=True)]

LIMITS = {"du": 2**31 - 2, "fs": 65535, "di": 2**31 - 2}


def case(rng, lists, t):
    probe = sorted({v for l in lists for v in l} | {0, 1, 2, LIMITS[t]})
    return {"k": "simplices", "t": t, "scale": rng.choice([1, 2, 8]), "lists": lists,
            "W": [rng.randrange(-50, 50) for _ in lists], "probe": probe}


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Simplex"]
    for k in range(0, len(ex), 3):
        ls = [l for p in ex[k:k + 3] for l in p]
        out.append(case(rng, ls, rng.choice(sorted(LIMITS))))
    for _ in range(500 if tier == "quick" else 6000):
        t = rng.choice(sorted(LIMITS))
        top = LIMITS[t]
        pool = [rng.choice([0, 1, 255, 256, 32767, 32768, top, top - 1, rng.randrange(top), rng.randrange(10)])
                for _ in range(rng.randrange(2, 9))]
        lists = []
        for _ in range(rng.randrange(2, 7)):
            lists.append([rng.choice(pool) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 25]))])
        # permutations and repetitions of the same set
        l = list(rng.choice(lists))
        if l:
            l.append(rng.choice(l))
        rng.shuffle(l)
        lists.append(l)
        out.append(case(rng, lists, t))
    return out


CHECK = Check(
    "C07",
    [Part("simplices", "complex.cc", "Trace_Simplex", cases, accept="AcceptSimplices", units=(0, 1, 2, 3))],
    MODELS,
    rule="all vertex lists and vertex sets of the model plus random families of lists with repeated, permuted and extreme "
         "labels; every pair of a family is compared")
