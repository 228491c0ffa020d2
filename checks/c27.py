import itertools

from vlib import Check, Model, Part
import readers

CFG = """SPECIFICATION Spec
INVARIANTS RoundTrip WrittenOnly BagLaws Export
CONSTANTS Points <- QuickPoints MaxLines = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Texts", CFG % 4, CFG % 6, export=True)]
INF = 2000000000


def value(rng, t):
    """Multiples of 1/100 with at most six digits (integers for type i)."""
    if t == "i":
        return 100 * rng.randrange(-50, 1000)
    return rng.choice([0, 100, -100, 25, 150, 1, -1, 999999, -999999, rng.randrange(-2000, 2000), rng.randrange(-999999, 1000000)])


def diagram(rng, t):
    pts = []
    for _ in range(rng.choice([0, 1, 2, 5, 12])):
        p = [value(rng, t), INF if rng.random() < 0.25 else value(rng, t)]
        pts += [p] * rng.choice([1, 1, 1, 2])
    return pts


def text(rng, doc, newline, number, seps, indent, comments=True):
    lines = []
    for l in doc:
        sep = rng.choice(seps)
        space = rng.choice(["", "", " ", "\t", "  "]) if indent else ""
        end = rng.choice(["", "", "", " ", "\t"])
        if l["k"] == "v":
            lines.append(space + sep.join(number(x) for x in l["x"]) + end)
        elif l["k"] == "c":
            lines.append((space if comments else "") + rng.choice(["#", "# 1 2 3", "#7 8", "# a comment"]))
        else:
            lines.append((space + end) if indent else "")
    return "\n".join(lines) + ("\n" if newline and lines else "")


def decorate(rng, values):
    doc = []
    for v in values:
        while rng.random() < 0.15:
            doc.append({"k": rng.choice("cb"), "x": []})
        doc.append({"k": "v", "x": v})
    while rng.random() < 0.2:
        doc.append({"k": rng.choice("cb"), "x": []})
    return doc


def number(rng):
    def f(x):
        if x == INF:
            return rng.choice(["inf", "Inf", "infinity", "INF", "+inf", "Infinity"])
        return readers.num(rng, x * 10, plain=True)
    return f


def rdiagram(rng, doc, newline, t="d"):
    return {"k": "rdiagram", "t": t, "doc": doc, "text": text(rng, doc, newline, number(rng), [" ", "\t", "  ", " \t"], False)}


def rcloud(rng, doc, newline, t="d"):
    return {"k": "rcloud", "t": t, "doc": doc, "file": rng.random() < 0.5,
            "text": text(rng, doc, newline, number(rng), [" ", "\t", ",", ";", ", ", ":", "  "], True)}


def complex_columns(rng):
    """Boundary of a simplicial complex in some order, dimension first."""
    n = rng.randrange(1, 6)
    K = [(i,) for i in range(n)]
    for d in (2, 3, 4):
        for s in itertools.combinations(range(n), d):
            if all(f in K for f in itertools.combinations(s, d - 1)) and rng.random() < 0.6:
                K.append(s)
    if rng.random() < 0.5:
        rng.shuffle(K)
        K.sort(key=len)
    pos = {s: i for i, s in enumerate(K)}
    cols = []
    for s in K:
        f = [pos[g] for g in itertools.combinations(s, len(s) - 1)] if len(s) > 1 else []
        rng.shuffle(f)
        cols.append([len(s) - 1] + f)
    return cols


def rmatrix(rng):
    doc = decorate(rng, complex_columns(rng))
    return {"k": "rmatrix", "t": rng.choice("dfi"), "doc": doc, "file": rng.random() < 0.5,
            "text": text(rng, doc, rng.random() < 0.7, str, [" ", "\t", "  "], True)}


def graph(rng, first=0):
    n = rng.randrange(1, 8)
    V = list(range(first, first + n)) if rng.random() < 0.5 or first else sorted(rng.sample(range(0, 120), n))
    E = [[u, v, value(rng, "d")] for u in V for v in V if u < v and rng.random() < 0.4]
    return {"V": V, "E": E}


def gml(rng):
    labelled = rng.random() < 0.4
    G = graph(rng, 1 if labelled else 0)
    return arrange(rng, {"k": "gml", "t": rng.choice("df"), "G": G, "T": [], "labelled": labelled, "data": rng.random() < 0.5, "file": rng.random() < 0.5,
            "labels": [readers.label(rng) for _ in G["V"]] if labelled else []})


def arrange(rng, c):
    """Adds tetrahedra, and an order of all simplices."""
    V, T = c["G"]["V"], {tuple(t) for t in c["T"]}
    c["Q"] = [q for q in itertools.combinations(sorted(V), 4) if set(itertools.combinations(q, 3)) <= T]
    c["order"] = list(range(len(V) + len(c["G"]["E"]) + len(T) + len(c["Q"])))
    if rng.random() < 0.7:
        rng.shuffle(c["order"])
    return c


def drawing(rng):
    n = rng.randrange(1, 8)
    V = sorted(rng.sample(range(n + 3), n))
    E = [[u, v, 0] for u in V for v in V if u < v and rng.random() < 0.5]
    have = {(u, v) for u, v, _ in E}
    T = [[u, v, w] for u in V for v in V for w in V if u < v < w and {(u, v), (u, w), (v, w)} <= have and rng.random() < 0.8]
    k = rng.choice(["drawing", "picture"])
    d = 2 if k == "picture" else rng.choice([2, 3])
    P = []
    while len(P) < n + 3:
        p = [value(rng, "d") for _ in range(d)]
        if p not in P:
            P.append(p)
    return arrange(rng, {"k": k, "t": "d", "G": {"V": V, "E": E}, "T": T, "P": P, "labelled": rng.random() < 0.5,
                         "fill": rng.random() < 0.5, "file": rng.random() < 0.5})


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Texts"]
    for e in rng.sample(ex, min(len(ex), 300 if tier == "quick" else 5000)):
        out.append(rdiagram(rng, e["doc"], e["newline"]))
        if any(l["k"] == "v" for l in e["doc"]):
            out.append(rcloud(rng, e["doc"], e["newline"]))
    for _ in range(150 if tier == "quick" else 1500):
        t = rng.choice("dfi")
        Ds = [{"dim": rng.randrange(0, 4), "pts": diagram(rng, t)} for _ in range(rng.randrange(1, 4))]
        one = rng.random() < 0.3
        out.append({"k": "json", "t": t, "Ds": Ds[:1] if one else Ds, "one": one, "kvs": rng.random() < 0.3,
                    "name": rng.choice(["", "name", "a longer name"]), "file": rng.random() < 0.5})
        t = rng.choice("dfi")
        out.append({"k": "diagram", "t": t, "pts": diagram(rng, t)})
        d = rng.randrange(1, 5)
        out.append({"k": "cloud", "t": rng.choice("df"), "d": d, "file": rng.random() < 0.5,
                    "pts": [[value(rng, "d") for _ in range(d)] for _ in range(rng.randrange(1, 10))]})
        out.append(rdiagram(rng, decorate(rng, diagram(rng, "d")), rng.random() < 0.7))
        out.append(rcloud(rng, decorate(rng, [[value(rng, "d") for _ in range(d)] for _ in range(rng.randrange(1, 10))]), rng.random() < 0.7))
        out.append(rmatrix(rng))
        out.append(gml(rng))
        out.append(drawing(rng))
    for what in ["json", "gml", "picture", "drawing", "rjson", "rdiagram", "rgml"]:
        out.append({"k": "refusal", "t": "d", "what": what})
    return out


CHECK = Check(
    "C27",
    [Part("texts", "texts.cc", "Trace_Texts", cases, accept="AcceptText")],
    MODELS,
    assumptions=["numbers have at most six significant digits", "names and labels contain no quotation marks",
                 "labelled graphs have vertices 1, 2, ..."],
    rule="all documents of the model (values, comments, blank lines, last line with or without line break) plus random diagrams, clouds, graphs, matrices and drawings")
