from vlib import Check, Model, Part

GCFG = ("SPECIFICATION Spec\nINVARIANTS CountsComponents CountsCycles CommunitiesAreComponents Nested Partition Unfiltered Export\n"
        "CHECK_DEADLOCK FALSE\nCONSTANTS Size = %d Weights = %s\n")
MODELS = [Model("MC_GraphPrograms", GCFG % (4, "{1, 2}"), GCFG % (4, "{1, 2, 3, 4}"), export=True)]
PROGRAMS = ("betti_numbers", "clique_communities_to_json", "connectivity_matrix_analysis", "function_analysis",
            "sparse_adjacency_matrices", "spectral_analysis")


def some_edges(rng, nodes, most=10):
    es = [[u, v] for i, u in enumerate(nodes) for v in nodes[:i]]
    return [e if rng.random() < 0.5 else e[::-1] for e in rng.sample(es, rng.randrange(min(len(es), most) + 1))]


def betti(rng):
    files = []
    for _ in range(rng.randrange(1, 5)):
        i = rng.choice([rng.randrange(12), rng.randrange(1000)])
        nodes = rng.sample(range(30), rng.randrange(1, 8))
        files.append({"name": "%s%s%s.gml" % (rng.choice(["mol", "a-", "t_"]), str(i).zfill(rng.choice([1, 3])), rng.choice(["", "-x7", "_3"])),
                      "id": i, "nodes": nodes, "edges": some_edges(rng, nodes, 12)})
    names = [f["name"] for f in files]
    if len(set(names)) < len(names):
        return betti(rng)
    return {"k": "betti", "files": files}


def collection(rng, big=False):
    n, m = 0, rng.randrange(10, 13) if big else rng.randrange(1, 5)
    ind, edges = [], []
    norm = rng.random() < 0.3
    for g in range(1, m + 1):
        size = rng.randrange(2 if norm else 1, 4 if big else 7)
        nodes = list(range(n + 1, n + size + 1))
        es = some_edges(rng, nodes, 9)
        if norm and not es:
            es = [[n + 1, n + 2]]
        edges += es
        ind += [g] * size
        n += size
    rng.shuffle(edges)
    d = rng.choice([0, 0, 1] if norm else [0, 0, 1, 2, 3])
    return {"k": "tu", "ind": ind, "edges": edges, "labels": [rng.choice([-1, 0, 1, 2]) for _ in range(m)],
            "names": [rng.randrange(50) for _ in ind], "d": d, "f": rng.choice([1, 2, 3]), "by": rng.choice(["max", "sum", "super"]),
            "norm": norm, "close": rng.random() < 0.5, "gml": d == 0 and rng.random() < 0.5, "slash": rng.choice(["", "/"])}


def matrix(rng, n):
    m = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            m[i][j] = m[j][i] = rng.choice([0, rng.randrange(1, 4), rng.randrange(1, 10)])
    return m


def gaps(rng, m):
    """Entries of the matrix without an edge that are not even numbers."""
    p = rng.choice([0, 0, 0.5])
    return [[i, j] for i, row in enumerate(m) for j, x in enumerate(row) if x == 0 and rng.random() < p]


def connect(rng, ms=None):
    ms = ms or [matrix(rng, rng.randrange(1, 7)) for _ in range(rng.randrange(1, 4))]
    return {"k": "connect", "files": [{"name": "m%d.txt" % k, "m": m, "gaps": gaps(rng, m)} for k, m in enumerate(ms)],
            "keep": rng.random() < 0.5, "inf": rng.choice([-1, 0, 10])}


def cliques(rng, edges=None):
    form = rng.choice(["gml", "txt"])
    if edges is None:
        nodes = rng.sample(range(40), rng.randrange(3, 9))
        edges = [e + [rng.choice([1, 2, 3, 4, 8])] for e in some_edges(rng, nodes, 16)]
        if not edges:
            return cliques(rng)
    else:
        nodes = sorted({v for e in edges for v in e[:2]})
    if form == "txt":
        nodes = sorted({v for e in edges for v in e[:2]})
    norm = rng.random() < 0.4
    if norm and max(e[2] for e in edges) not in (1, 2, 4, 8):
        norm = False
    return {"k": "cliques", "form": form, "nodes": nodes, "edges": edges, "t": rng.randrange(9) if norm else 8 * rng.randrange(9),
            "top": rng.choice([1, 2, 2, 3]), "norm": norm, "inv": rng.random() < 0.3, "labels": form == "gml" and rng.random() < 0.5, "short": rng.random() < 0.3}


def functions(rng):
    fs = [[rng.randrange(12) for _ in range(rng.randrange(2, 9))] for _ in range(rng.randrange(1, 6))]
    n = rng.randrange(1, len(fs) + 1)
    stdin = rng.random() < 0.3
    return {"k": "functions", "fs": fs, "split": [len(fs)] if stdin or n == len(fs) else [n, len(fs) - n], "stdin": stdin,
            "super": rng.random() < 0.4, "cond": rng.random() < 0.4, "norm": rng.random() < 0.4}


def spectrum(rng):
    n = rng.randrange(2, 11)
    mode = rng.choice(["diagram", "transformation", "identity"])
    ys = rng.sample(range(1, 60), n) if mode == "transformation" else [rng.randrange(1, 12) for _ in range(n)]
    return {"k": "spectrum", "xs": sorted(rng.sample(range(1, 2000), n)), "ys": ys, "mode": mode, "norm": rng.random() < 0.3,
            "head": rng.random() < 0.5, "fine": rng.random() < 0.4}


def runs(rng, tier, exported):
    ex = exported["MC_GraphPrograms"]
    cap, many = (60, 40) if tier == "quick" else (1000, 500)
    out = []
    for x in rng.sample(ex, min(cap, len(ex))):
        m = [[0] * x["n"] for _ in range(x["n"])]
        for u, v, w in x["edges"]:
            m[u - 1][v - 1] = m[v - 1][u - 1] = w
        out += [connect(rng, [m]), cliques(rng, [list(e) for e in x["edges"]])]
    for make, share in ((betti, 1), (collection, 3), (connect, 2), (cliques, 3), (functions, 2), (spectrum, 2)):
        out += [make(rng) for _ in range(int(many * share))]
    return out + [collection(rng, True) for _ in range(many // 10)]


CHECK = Check(
    "C44",
    [Part("runs", "programs.py", "Trace_GraphPrograms", runs, accept="AcceptGraphPrograms", flags=PROGRAMS)],
    MODELS,
    assumptions=["weights and values are small integers (fractions of them after normalisation), compared up to the printed precision",
                 "graphs have no parallel edges; normalised collections contain no graph without edges",
                 "transformed spectra have distinct intensities"],
    rule="all weighted graphs of the model and random graphs, matrices, collections, functions and spectra, with random options of the programs")
