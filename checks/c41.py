from vlib import Check, Model, Part

INF = 2000000000
SCFG = ("SPECIFICATION Spec\nINVARIANTS Consistent Filtered Holes FarAway Cancels Export\n"
        "CHECK_DEADLOCK FALSE\nCONSTANTS Vertices = %s Depth = %d\n")
MODELS = [Model("MC_Session", SCFG % ("{0, 1}", 5), SCFG % ("{0, 1, 2}", 5), export=True)]


def closed(rng):
    """A small closed complex with monotone even weights, in random order."""
    n = rng.randrange(1, 6)
    labels = rng.sample(range(9), n)
    f = {v: 2 * rng.randrange(4) for v in labels}
    top = []
    for _ in range(rng.randrange(1, 5)):
        top.append(frozenset(rng.sample(labels, min(n, rng.randrange(1, 5)))))
    K = set()
    for t in top:
        t = sorted(t)
        for m in range(1, 1 << len(t)):
            K.add(tuple(v for k, v in enumerate(t) if m >> k & 1))
    extra = {2: rng.choice([0, 2, 4]), 3: 6, 4: 8}
    items = [(list(s), max(f[v] for v in s) + extra.get(len(s), 0)) for s in K]
    items.sort()
    rng.shuffle(items)
    for s, _ in items:
        rng.shuffle(s)
    return items


def form(rng, w):
    return rng.choice(["simplex", "tuple", "again"] + (["list"] if w == 0 else []))


def items(rng, K):
    return [{"s": s, "w": w, "form": form(rng, w)} for s, w in K]


def diagram(rng):
    pts = []
    down = rng.random() < 0.3           # all points below the diagonal
    for _ in range(rng.randrange(6)):
        x = 2 * rng.randrange(9)
        r = rng.random()
        if down:
            pts.append([x, x if r < 0.15 else 2 * rng.randrange(x // 2 + 1)])
        else:
            pts.append([x, INF if r < 0.2 else x if r < 0.35 else 2 * rng.randrange(x // 2, 9)])
    return pts + [list(rng.choice(pts)) for _ in range(rng.randrange(3)) if pts]


def graph(rng):
    n = rng.randrange(2, 6)
    es = [(u, v) for u in range(n) for v in range(u)]
    es = rng.sample(es, rng.randrange(1, len(es) + 1))
    return n, [list(e) if rng.random() < 0.5 else [e[1], e[0]] for e in es]


def script(rng):
    ops = []
    ready = {1: False, 2: False}        # in filtration order
    graphs = {1: False, 2: False}       # closed
    finite = {1: True, 2: True}
    for _ in range(rng.randrange(4, 13)):
        r, s, u = rng.randrange(1, 3), rng.randrange(1, 3), rng.randrange(1, 3)
        o = rng.choice(["new", "new", "append", "sort", "sortby", "sortby", "expand", "maximum", "load", "diagrams", "diagrams",
                        "zero", "points", "rdiag", "runp", "setdim", "norms", "pif", "pif", "add", "sub", "iadd", "isub",
                        "neg", "abs", "pow"])
        op = {"op": o, "r": r}
        if o == "new":
            op["items"] = items(rng, closed(rng))
            if rng.random() < 0.3 and op["items"]:
                op["items"].append(dict(rng.choice(op["items"]), form="simplex"))
            ready[r], graphs[r] = False, True
        elif o == "append":
            w = rng.choice([0, 14])
            op["item"] = {"s": rng.sample(range(9), rng.randrange(1, 4)), "w": w,
                          "form": rng.choice(["simplex", "again"] + (["list"] if w == 0 else []))}
            ready[r], graphs[r] = False, False
        elif o == "sort":
            ready[r] = False
        elif o == "sortby":
            op["by"] = rng.choice(["data", "data", "greater", "lex"])
            ready[r] = graphs[r] and op["by"] == "data"
        elif o == "expand":
            if not graphs[s]:
                continue
            op["s"], op["d"] = s, rng.randrange(1, 4)
            ready[r], graphs[r] = False, False
            ops.append(op)
            op = {"op": "maximum", "r": r, "s": r}
            graphs[r] = True
        elif o == "maximum":
            if not graphs[s]:
                continue
            op["s"] = s
            ready[r], graphs[r] = False, True
        elif o == "load":
            n, edges = graph(rng)
            op["kind"] = rng.choice(["gml", "gml", "edges"])
            op["edges"] = edges
            op["by"] = rng.choice(["none", "max", "min", "sum"])
            op["f"] = [2 * rng.randrange(5) for _ in range(n)] if op["kind"] == "gml" else []
            op["weights"] = [2 * rng.randrange(1, 6) for _ in edges] if op["kind"] == "edges" else []
            ready[r], graphs[r] = False, op["by"] != "min"
        elif o in ("diagrams", "zero"):
            if not ready[s]:
                if not graphs[s]:
                    continue
                ops.append({"op": "sortby", "r": s, "by": "data"})
                ready[s] = True
            op["s"] = s
            if o == "diagrams":
                op["i"] = rng.randrange(1, 4)
            else:
                op["u"] = rng.choice([INF, INF, 18, 20])
        elif o == "points":
            op["pts"] = diagram(rng)
            if not op["pts"]:
                continue
        elif o == "setdim":
            op["d"] = rng.randrange(5)
        elif o == "pif":
            op["s"], op["form"] = s, rng.choice(["class", "function"])
        elif o in ("add", "sub"):
            op["s"], op["u"] = s, u
        elif o in ("iadd", "isub", "neg"):
            op["s"] = s
        elif o == "pow":
            op["p"] = rng.choice([1, 2, 2, 3])
        ops.append(op)
    if sum(op["op"] == "pow" for op in ops) > 2 or sum(op["op"] in ("add", "iadd") for op in ops) > 8:
        return script(rng)
    return ops


def probes(rng):
    return [rng.sample(range(9), rng.randrange(1, 3)) for _ in range(4)]


def sessions(rng, tier, exported):
    ex = [list(h) for h in exported["MC_Session"]]
    cap = 250 if tier == "quick" else 3000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    out = [{"ops": h, "probes": probes(rng)} for h in ex]
    for _ in range(500 if tier == "quick" else 5000):
        ops = script(rng)
        if ops:
            out.append({"ops": ops, "probes": probes(rng)})
    return out


def simplices(rng, tier, exported):
    out = []
    for _ in range(150 if tier == "quick" else 1500):
        n = rng.randrange(1, 6)
        span = rng.choice([3, 6, 1000000])
        lists = [[rng.randrange(span) for _ in range(rng.randrange(6))] for _ in range(n)]
        lists = [l for l in lists if len(set(l)) == len(l)]
        out.append({"lists": lists, "W": [rng.randrange(-5, 6) for _ in lists],
                    "probe": [rng.randrange(span) for _ in range(4)] + [v for l in lists for v in l][:4]})
    return out


CHECK = Check(
    "C41",
    [Part("sessions", "bindings.py", "Trace_Session", sessions, step=("StartSession", "StepSession")),
     Part("simplices", "bindings.py", "Trace_Simplex", simplices, accept="AcceptSimplices")],
    MODELS,
    assumptions=["weights and points of diagrams are integers, so that results are exact",
                 "the absolute value and the power of a step function are assigned to its own register (whether the operand "
                 "changes is left open)"],
    rule="all short sessions of the model, plus random sessions over two complexes, two diagrams and two step functions; all "
         "registers are examined after every call")
