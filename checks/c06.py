from vlib import Check, Model, Part
import gen

CFG = ("SPECIFICATION Spec\nINVARIANTS NoDuplicates RemoveCloses FacesClose WeighKeeps SortFilters PushKeeps "
       "Trichotomy Export\nCHECK_DEADLOCK FALSE\nCONSTANTS V = %s Weights = {0, 1} Depth = %d\n")
MODELS = [Model("MC_ComplexContainer", CFG % ("{1, 2, 3}", 3), CFG % ("{1, 2, 3}", 4), export=True)]


def fix(op):
    op = dict(op)
    if op["op"] == "sort" and "f" not in op:
        op["f"] = []
    return op


class Mirror:
    """Tracks the vertex sets (not the weights), to generate meaningful calls."""

    def __init__(self):
        self.C = []

    def closed(self):
        return gen.closure(self.C) == set(self.C)

    def push(self, s):
        if s not in self.C:
            self.C.append(s)


def history(rng):
    nv = rng.choice([2, 3, 4, 5, 6, 2, 3, 4, 5, 6, 12])
    lab = gen.labels(rng, nv, 30)
    small = max(lab) < 60

    def simplex():
        return tuple(sorted(rng.sample(lab, rng.choice([1, 1, 2, 2, 2, 3, 3, 4][:2 + 2 * nv]) % (nv + 1) or 1)))

    def listing(s):
        l = list(s)
        rng.shuffle(l)
        if rng.random() < 0.2:
            l.append(rng.choice(l))
        return l

    def items(S):
        return [{"s": listing(s), "w": rng.randrange(-8, 9)} for s in S]

    m = Mirror()
    ops = []
    for _ in range((rng.randrange(4, 14) if rng.random() < 0.95 else 40)):
        r = rng.random()
        if r < 0.30:
            s = simplex()
            ops.append({"op": "push", "s": listing(s), "w": rng.randrange(-8, 9)})
            m.push(s)
        elif r < 0.38:
            S = [simplex() for _ in range(rng.randrange(0, 4))]
            ops.append({"op": rng.choice(["insert", "insert", "assign"]), "items": items(S)})
            if ops[-1]["op"] == "assign":
                m.C = []
            for s in S:
                m.push(s)
        elif r < 0.46 and m.C:
            k = rng.randrange(len(m.C))
            s = rng.choice([simplex(), rng.choice(m.C), m.C[k]])
            ops.append({"op": "replace", "k": k + 1, "s": listing(s), "w": rng.randrange(-8, 9)})
            if s == m.C[k] or s not in m.C:
                m.C[k] = s
        elif r < 0.56 and m.C and m.closed():
            s = rng.choice(m.C) if rng.random() < 0.85 else simplex()
            ops.append({"op": "remove", "s": listing(s)})
            m.C = [t for t in m.C if not set(s) <= set(t)]
        elif r < 0.60 and m.C:
            s = rng.choice(m.C) if rng.random() < 0.85 else simplex()
            ops.append({"op": "remove1", "s": listing(s)})
            m.C = [t for t in m.C if t != s]
        elif r < 0.72:
            ops.append({"op": "faces"})
            new = gen.closure(m.C) - set(m.C)
            if new:
                # the order of the new faces is up to the library
                ops.append({"op": "sort", "by": "lex", "f": []})
                m.C = sorted(gen.closure(m.C), key=lambda s: sorted(s, reverse=True))
        elif r < 0.80 and m.C and m.closed():
            ops.append({"op": "weigh", "max": rng.random() < 0.6, "keep": rng.random() < 0.4})
        elif r < 0.84 and m.C and m.closed() and small:
            ops.append({"op": "values", "f": [rng.randrange(-5, 6) for _ in range(max(lab) + 1)]})
        elif r < 0.88 and m.C:
            p = list(range(1, len(m.C) + 1))
            rng.shuffle(p)
            ops.append({"op": "shuffle", "p": p})
            m.C = [m.C[k - 1] for k in p]
        elif r < 0.95:
            by = rng.choice(["data", "data", "greater", "lex"] + (["lower", "upper"] if small else []))
            ops.append({"op": "sort", "by": by,
                        "f": [rng.randrange(-3, 4) for _ in range(max(lab) + 1)] if by in ("lower", "upper") else []})
            # positions are unknown from here on; renew them
            ops.append({"op": "sort", "by": "lex", "f": []})
            m.C = sorted(m.C, key=lambda s: sorted(s, reverse=True))
        elif r < 0.98:
            ops.append({"op": "copy"})
        else:
            ops.append({"op": "clear"})
            m.C = []
    probes = [listing(s) for s in {simplex() for _ in range(5)} | set(rng.sample(m.C, min(4, len(m.C))))]
    return {"k": "history", "t": rng.choice(["du", "fs", "di"]), "scale": rng.choice([1, 4]), "ops": ops,
            "probes": sorted(probes)}


def histories(rng, tier, exported):
    out = []
    ex = exported["MC_ComplexContainer"]
    cap = 2500 if tier == "quick" else 20000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    probes = [[1], [2], [3], [1, 2], [3, 1], [2, 3], [1, 2, 3]]
    for h in ex:
        # a copy taken in the middle makes the comparison operators meaningful
        ops = [fix(o) for o in h]
        ops.insert(rng.randrange(len(ops) + 1), {"op": "copy"})
        out.append({"k": "history", "t": rng.choice(["du", "fs", "di"]), "scale": 1, "ops": ops, "probes": probes})
    for _ in range(900 if tier == "quick" else 8000):
        out.append(history(rng))
    return out


CHECK = Check(
    "C06",
    [Part("histories", "complex.cc", "Trace_ComplexContainer", histories, step=("StartComplex", "StepOne"), units=(0, 1, 3, 4))],
    MODELS,
    assumptions=["removal with validation and weight recomputation are applied to complexes that contain all faces"],
    rule="all histories of the model (sampled beyond the cap) plus random histories of all container operations; "
         "after every call iteration, lookup, position, order, dimension and comparison views are recorded")
