from vlib import Check, Model, Part
import gen

CFG = ("SPECIFICATION Spec\nINVARIANTS ClosureOK RepresentativeOK RootsOK PartitionOK Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS Elements = {1, 2, 3, 4} Depth = %d\n")
MODELS = [Model("MC_UnionFind", CFG % 3, CFG % 4, export=True)]


def histories(rng, tier, exported):
    out = []
    ex = exported["MC_UnionFind"]
    cap = 4096 if tier == "quick" else 30000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    for h in ex:
        ops = []
        for u, v in h:
            ops.append({"op": "merge", "u": u, "v": v})
            if rng.random() < 0.3:
                ops.append({"op": "find", "u": rng.randrange(1, 5)})
        ops.append({"op": "all"})
        out.append({"k": "uf", "t": rng.choice(["us", "i", "ul"]), "elements": [1, 2, 3, 4], "ops": ops})
    for _ in range(500 if tier == "quick" else 5000):
        n = rng.randrange(1, 16)
        el = gen.labels(rng, n)
        ops = []
        for _ in range(rng.randrange(1, 30)):
            r = rng.random()
            if r < 0.55:
                ops.append({"op": "merge", "u": rng.choice(el), "v": rng.choice(el)})
            elif r < 0.75:
                ops.append({"op": "find", "u": rng.choice(el) if rng.random() < 0.9 else 65001})
            elif r < 0.8:
                ops.append({"op": "contains", "u": rng.choice(el + [65001, 65002])})
            elif r < 0.9:
                ops.append({"op": "roots"})
            else:
                ops.append({"op": "get", "u": rng.choice(el)})
        ops.append({"op": "all"})
        out.append({"k": "uf", "t": rng.choice(["us", "i", "ul"]), "elements": el, "ops": ops})
    for _ in range(30 if tier == "quick" else 300):    # many elements, long chains
        n = rng.randrange(20, 150)
        el = gen.labels(rng, n)
        chain = rng.random() < 0.6
        ops = []
        for k in range(n - 1):
            if chain:
                ops.append({"op": "merge", "u": el[k], "v": el[k + 1]})
            elif rng.random() < 0.9:
                ops.append({"op": "merge", "u": rng.choice(el), "v": rng.choice(el)})
        for _ in range(4):
            ops.append({"op": "find", "u": rng.choice(el[:3])})
            ops.append({"op": "get", "u": rng.choice(el)})
        ops.append({"op": "roots"})
        out.append({"k": "uf", "t": rng.choice(["us", "i", "ul"]), "elements": el, "ops": ops})
    return out


def components(rng, tier, exported):
    out = []
    for size, count in (("small", 250), ("medium", 120), ("large", 4)):
        for _ in range(count if tier == "quick" else count * 8):
            K = [list(s) for s in gen.any_complex(rng, size)]
            rng.shuffle(K)
            vs = sorted({v for s in K for v in s})
            if not vs:
                continue
            same = [[rng.choice(vs), rng.choice(vs)] for _ in range(6)]
            out.append({"k": "components", "t": rng.choice(["du", "fs"]), "K": K, "W": [0] * len(K), "same": same})
    return out


CHECK = Check(
    "C05",
    [Part("histories", "components.cc", "Trace_UnionFind", histories, step=("StartUF", "StepUF")),
     Part("components", "components.cc", "Trace_Components", components, accept="AcceptComponents")],
    MODELS,
    rule="all merge histories of the model plus random histories with queries; components of random complexes")
