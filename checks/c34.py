from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS CountsAreClasses Invariance Idempotent Pascal Export
CONSTANT MaxN = %d
CHECK_DEADLOCK FALSE
"""
KINDS = ["combination", "permutation", "circular", "reversible", "revcircular"]
MODELS = [Model("MC_Enumerations", CFG % 5, CFG % 6, export=True)]


def expected(kind, n, r):
    f = 1
    for k in range(r):
        f *= n - k
    g = 1
    for k in range(1, r + 1):
        g *= k
    return {"combination": f // g, "permutation": f, "circular": f // max(r, 1),
            "reversible": f // 2 if r > 1 else f,
            "revcircular": f // max(r, 1) if r <= 2 else f // (2 * r)}[kind]


def case(rng, kind, n, r, stop):
    x = rng.sample(range(100), n)
    if rng.random() < 0.5:
        x.sort()
    return {"k": "visit", "kind": kind, "x": x, "r": r, "stop": stop, "c": rng.choice(["vector", "list"])}


def cases(rng, tier, exported):
    out = []
    top = 260 if tier == "quick" else 3000
    for n in sorted(exported["MC_Enumerations"]) + [6, 7, 8]:
        for kind in KINDS:
            for r in range(n + 1):
                t = expected(kind, n, r)
                if t > top:
                    continue
                out.append(case(rng, kind, n, r, 0))
                for _ in range(3):
                    out.append(case(rng, kind, n, r, rng.randrange(1, t + 2)))
    for kind in KINDS:
        for d1 in range(0, 13):
            for d2 in range(0, 13):
                if expected(kind, d1 + d2, d1) < 2 ** 31 and expected("permutation", d1 + d2, d1) < 2 ** 31:
                    for top in (255, 127, 65535, 2 ** 31 - 1):
                        if top != 127 or tier == "thorough" or rng.random() < 0.3:
                            out.append({"k": "count", "kind": kind, "d1": d1, "d2": d2, "top": top})
    # Many elements, few of them selected
    for n in (9, 12, 15):
        for kind in KINDS:
            for r in (1, 2, n - 1, n):
                if 0 < expected(kind, n, r) <= top and n ** r < 2 ** 31:
                    out.append(case(rng, kind, n, r, 0))
    return out


CHECK = Check(
    "C34",
    [Part("enumerations", "enumerations.cc", "Trace_Enumerations", cases, accept="AcceptEnumeration")],
    MODELS,
    assumptions=["elements are distinct"],
    rule="every kind of selection and every number of selected elements for ranges of up to eight elements, with and without stopping early; counts in types of 8, 16 and 64 bits")
