import gen
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Same Covered EdgesCovered Antichain CommonOK LargestOK Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANT N = %d\n")
MODELS = [Model("MC_Cliques", CFG % 5, CFG % 6, export=True)]


def graph(rng, n):
    lab = gen.labels(rng, n)
    p = rng.choice([0.1, 0.3, 0.5, 0.7, 0.9, 1.0])
    E = [[lab[i], lab[j]] for i in range(n) for j in range(i) if rng.random() < p]
    return [[v] for v in lab] + E


def cliques(rng, tier, exported):
    out = []
    ex = exported["MC_Cliques"]
    if len(ex) > 4000:
        ex = rng.sample(ex, 4000)
    for E in ex:
        lab = gen.labels(rng, 6)
        K = [[lab[v]] for v in range(5)] + [[lab[v] for v in e] for e in E]
        if rng.random() < 0.3:
            rng.shuffle(K)
        out.append({"k": "cliques", "t": rng.choice("dfs"), "K": K, "W": [0] * len(K)})
    for _ in range(500 if tier == "quick" else 5000):
        r = rng.random()
        if r < 0.7:
            K = graph(rng, rng.randrange(1, 15))
        else:
            K = [list(s) for s in gen.any_complex(rng, "medium")]
        rng.shuffle(K)
        out.append({"k": "cliques", "t": rng.choice("dfs"), "K": K, "W": [rng.randrange(9) for _ in K]})
    return out


def cliquegraphs(rng, tier, exported):
    out = []
    for n in range(910 if tier == "quick" else 8100):
        K = [list(s) for s in gen.any_complex(rng, rng.choice(["small", "small", "medium"]))]
        if n % 91 == 0:
            K = [list(s) for s in gen.random_complex(rng, rng.randrange(20, 40), rng.choice([1, 2]), 1.0, 420)]
        m = rng.randrange(3)
        if m == 0:
            K.sort(key=len)
        elif m == 1:
            rng.shuffle(K)
        out.append({"k": "cliquegraph", "t": rng.choice("dfs"), "K": K, "W": [rng.randrange(-20, 40) for _ in K],
                    "d": rng.randrange(1, 5), "f": rng.choice(["default", "default", "max", "min", "sum"])})
    return out


def intersections(rng, tier, exported):
    out = []
    for _ in range(900 if tier == "quick" else 8000):
        K = sorted(gen.any_complex(rng, "small")) or [(3,)]
        V = sorted({v for s in K for v in s}) + [60001, 60002]
        if rng.random() < 0.4:
            s = list(rng.choice(K))
        else:
            s = rng.sample(V, rng.randrange(1, min(len(V), 5) + 1))
        t = list(rng.choice(K)) if rng.random() < 0.5 else rng.sample(V, rng.randrange(1, min(len(V), 5) + 1))
        K = [list(x) for x in K]
        rng.shuffle(K)
        out.append({"k": "intersections", "t": rng.choice("dfs"), "K": K, "W": [rng.randrange(1, 99) for _ in K], "s": s, "t2": t})
    return out


CHECK = Check(
    "C14",
    [Part("cliques", "graph.cc", "Trace_Cliques", cliques, accept="AcceptCliques"),
     Part("clique graphs", "graph.cc", "Trace_Cliques", cliquegraphs, accept="AcceptCliqueGraph", units=(0, 1, 3, 4)),
     Part("intersections", "graph.cc", "Trace_Cliques", intersections, accept="AcceptIntersections", units=(0, 1, 3, 4))],
    MODELS,
    assumptions=["graphs have at least one vertex and k is at least one",
                 "clique enumeration is compared on graphs with up to 14 vertices"],
    rule="all graphs of the model under random labels, random graphs and complexes in random order")
