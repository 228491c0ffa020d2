from vlib import Check, Model, Part

INF = 2000000000
PCFG = ("SPECIFICATION Spec\nINVARIANTS Symmetric Reflexive Stable Integral Norms Signatures Export\n"
        "CHECK_DEADLOCK FALSE\nCONSTANTS Coordinates = %s MaxPoints = %d\n")
MODELS = [Model("MC_Programs", PCFG % ("{0, 1, 2, 3}", 2), PCFG % ("{0, 1, 3, 4, 6}", 2), export=True)]
PROGRAMS = ("function_analysis", "graph_analysis", "make_signature", "persistence_diagram_statistics",
            "persistence_indicator_function", "topological_distance")


def name(rng, used=()):
    s = rng.choice(["d", "d", "d", "k", ""])
    return {"b": rng.choice(["a", "b", "c", "x_d1" if s else "x_1", "long.name" if s else "long-name"]), "s": s, "d": (rng.randrange(3) if rng.random() < 0.9 else rng.choice([9, 10, 12])) if s else 0}


def diagram(rng, size=5):
    q = []
    for _ in range(rng.randrange(size + 1)):
        x = rng.randrange(15)
        q.append([x, x if rng.random() < 0.1 else rng.randrange(x, 20)])
    if q and rng.random() < 0.3:
        q.append(list(rng.choice(q)))
    if rng.random() < 0.3:
        q.insert(rng.randrange(len(q) + 1), [rng.randrange(15), INF])
    return q


def graph(rng):
    n = rng.randrange(2, 7)
    labels = list(range(n)) if rng.random() < 0.7 else rng.sample(range(20), n)
    es = [[labels[u], labels[v]] for u in range(n) for v in range(u)]
    es = rng.sample(es, rng.randrange(1, min(len(es), 9) + 1))
    return [e if rng.random() < 0.5 else e[::-1] for e in es]


class Directory:
    """What is known about the files while a script is written."""

    def __init__(self):
        self.files = {}          # name -> finite, on one side of the diagonal

    def add(self, n, finite, diagonal=True):
        self.files[(n["b"], n["s"], n["d"])] = (finite, diagonal)

    def some(self, rng, good, most):
        c = [dict(b=b, s=s, d=d) for (b, s, d), v in sorted(self.files.items()) if good(*v)]
        if not c:
            return []
        return rng.sample(c, rng.randrange(1, min(len(c), most) + 1))


def options(rng, d, files):
    finite = all(d.files[(n["b"], n["s"], n["d"])][0] for n in files)
    by = rng.choice(["hausdorff", "wasserstein", "indicator"])
    o = {"k": "dist", "files": files, "by": by, "p": rng.choice([1, 2]), "clean": False, "unique": rng.random() < 0.2,
         "factor": 0, "kernel": rng.random() < 0.2, "norm": False, "list": rng.random() < 0.2, "json": rng.random() < 0.25, "form": rng.randrange(2)}
    if rng.random() < 0.3:
        o["clean"] = True
    elif rng.random() < 0.3 or not finite and by != "indicator":
        o["factor"] = rng.choice([1, 2])
    if by == "indicator" and all(n["d"] == 0 for n in files) and rng.random() < 0.4:
        o["norm"], o["p"] = True, 1
    return o


def ask(rng, d, ops):
    what = rng.choice(["stat", "sign", "pif", "dist", "dist"])
    if what == "stat":
        files = d.some(rng, lambda finite, diagonal: finite, 4)
        if files:
            inv = rng.choice([-1, -1, 0, 4, 7])
            if inv == -1 or not any(d.files[(n["b"], n["s"], n["d"])][1] for n in files):
                ops.append({"k": "stat", "files": files, "p": rng.choice([1, 2]), "invalid": inv, "form": rng.randrange(2)})
    elif what == "sign":
        norm = rng.random() < 0.3
        files = d.some(rng, (lambda finite, diagonal: finite) if norm else (lambda finite, diagonal: True), 3)
        if files:
            ops.append({"k": "sign", "files": files, "filter": rng.choice([0, 0, 1, 3]), "keep": rng.choice([0, 0, 1, 4]), "norm": norm})
    elif what == "pif":
        files = d.some(rng, lambda finite, diagonal: True, 7)
        if files:
            ops.append({"k": "pif", "files": files, "mean": rng.random() < 0.7, "prefix": rng.choice(["PIF_", "f-"]),
                        "slash": rng.choice(["", "/"])})
    else:
        files = d.some(rng, lambda finite, diagonal: True, 6)
        if files:
            ops.append(options(rng, d, files))


def script(rng):
    d, ops = Directory(), []
    for _ in range(rng.randrange(3, 8)):
        r = rng.random()
        if r < 0.65 or not d.files:
            n, pts = name(rng), diagram(rng)
            ops.append({"k": "put", "name": n, "pts": pts, "form": rng.randrange(6)})
            d.add(n, all(y != INF for _, y in pts), any(x == y for x, y in pts))
        elif r < 0.8:
            b, es = rng.choice("abc"), graph(rng)
            op = {"k": "graph", "b": b, "edges": es, "weights": [rng.randrange(1, 9) for _ in es],
                  "dim": rng.choice([-1, -1, 1, 2, 3]), "loops": rng.random() < 0.5, "zero": rng.random() < 0.4,
                  "inf": rng.choice([1, 2, 2, 3]), "slash": rng.choice(["", "/"])}
            ops.append(op)
            for k in range(3):                           # higher dimensions depend on the graph
                if k == 0 or (b, "d", k) in d.files:
                    d.add({"b": b, "s": "d", "d": k}, k == 0 or d.files[(b, "d", k)][0])
        else:
            n = name(rng)
            ops.append({"k": "function", "name": n, "f": [rng.randrange(12) for _ in range(rng.randrange(2, 8))],
                        "super": rng.random() < 0.4, "form": rng.randrange(6)})
            d.add(n, True)
        if rng.random() < 0.3:
            ask(rng, d, ops)
    for _ in range(rng.randrange(1, 4)):
        ask(rng, d, ops)
    return {"ops": ops}


def many(rng):
    """Distances of many data sets."""
    d, ops = Directory(), []
    n = rng.randrange(5, 13)
    for k in range(n):
        f = {"b": "s%d" % k, "s": "d", "d": 0}
        ops.append({"k": "put", "name": f, "pts": diagram(rng, 3), "form": 0})
        d.add(f, False)
    files = [o["name"] for o in ops]
    rng.shuffle(files)
    ops.append(options(rng, d, files))
    return {"ops": ops}


def pipelines(rng, tier, exported):
    out = []
    ex = exported["MC_Programs"]
    cap = 60 if tier == "quick" else 600
    for a, b in rng.sample(ex, min(cap, len(ex))):
        d = Directory()
        names = [{"b": "a", "s": "d", "d": 1}, {"b": "b", "s": "d", "d": 1}]
        ops = [{"k": "put", "name": n, "pts": q, "form": rng.randrange(6)} for n, q in zip(names, (a, b))]
        for n in names:
            d.add(n, True, False)
        ops.append(options(rng, d, names))
        ask(rng, d, ops)
        out.append({"ops": ops})
    out += [script(rng) for _ in range(220 if tier == "quick" else 2500)]
    out += [many(rng) for _ in range(15 if tier == "quick" else 150)]
    return out


CHECK = Check(
    "C43",
    [Part("pipelines", "programs.py", "Trace_Programs", pipelines, step=("StartPrograms", "StepPrograms"), flags=PROGRAMS)],
    MODELS,
    assumptions=["coordinates are small integers; printed fractions are compared up to their printed precision",
                 "indicator functions of a file have all their points on one side of the diagonal",
                 "Wasserstein and Hausdorff distances are claimed for diagrams whose unpaired points were removed or replaced"],
    rule="pairs of small diagrams from the model; random scripts that write diagrams, run graph and function "
         "analyses and ask for statistics, signatures, indicator functions and distance matrices of several data sets")
