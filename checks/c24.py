from vlib import Check, Model, Part
import c23

CFG = ("SPECIFICATION Spec\nINVARIANTS InterpolationLinear NodesOK SubdivisionOK Triangle Parallelogram Export\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS Points = 4 Values <- %s\n")
MODELS = [Model("MC_PiecewiseLinear", CFG % "QuickValues", CFG % "ThoroughValues", export=True)]
POINTS, S = 24, 64


def nodes(rng, lo, hi, zero):
    """Nodes from lo to hi at distances 2, 4 or 8."""
    xs = [lo]
    while xs[-1] < hi:
        xs.append(min(hi, xs[-1] + rng.choice([2, 4, 8])))
    if xs[-1] - xs[-2] == 6:
        xs.insert(-1, xs[-2] + 2)
    ys = [rng.randrange(-5, 6) for _ in xs]
    if zero:
        ys[0] = ys[-1] = 0
    out = [[x, y] for x, y in zip(xs, ys)]
    rng.shuffle(out)
    return out


def history(rng, start, same):
    ops, t = [], c23.Tracker()
    for r, N in enumerate(start, 1):
        ops.append({"op": "build", "r": r, "nodes": N, "v": 0})
        t.set(r, max([abs(p[1]) for p in N] + [0]), 3)
    for _ in range(rng.randrange(2, 9)):
        r, s, u = rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 4)
        o = rng.choice(["add"] * 4 + ["sub"] * 4 + ["neg", "mul", "div", "abs", "abs", "copy", "dup"] + ["shift"] * (4 if same else 0))
        op = {"op": o, "r": r, "s": s, "v": rng.randrange(0, 4)}
        b, e = t.b[s], t.e[s]
        if o == "dup":
            N = nodes(rng, 2, 10, False)
            ops.append({"op": "build", "r": r, "nodes": N + [[N[0][0], N[0][1] + rng.randrange(2)]], "v": 0})
            continue
        if o in ("add", "sub"):
            op["u"] = u
            b, e = b + t.b[u], max(e, t.e[u])
        elif o == "shift":
            op["l"] = S * rng.randrange(-4, 5)
            b += 4
        elif o == "mul":
            op["l"] = rng.choice([-3, -1, 0, 2, 3])
            b *= 3
        elif o == "div":
            op["l"] = rng.choice([2, -2, 1])
            e += 1
        if b > 60 or not t.set(r, b, e):
            continue
        ops.append(op)
    return ops


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_PiecewiseLinear"]
    for F, G in (ex if len(ex) < 700 else rng.sample(ex, 700 if tier == "quick" else min(len(ex), 4096))):
        ops = [{"op": "build", "r": 1, "nodes": F, "v": 0}, {"op": "build", "r": 2, "nodes": G, "v": 0},
               {"op": "add", "r": 3, "s": 1, "u": 2, "v": rng.randrange(2)}, {"op": "abs", "r": 3, "s": 3, "v": 0},
               {"op": "sub", "r": 3, "s": 1, "u": 2, "v": rng.randrange(2)}, {"op": "abs", "r": 3, "s": 3, "v": 0},
               {"op": "shift", "r": 1, "s": 1, "l": -S, "v": rng.randrange(4)}, {"op": "abs", "r": 1, "s": 1, "v": 0}]
        out.append(c23.heights(rng, {"k": "linear", "t": "d", "points": POINTS, "ops": ops}))
    for _ in range(900 if tier == "quick" else 8000):
        same = rng.random() < 0.5
        lo, hi = 2 * rng.randrange(0, 4), 2 * rng.randrange(6, 13)
        start = []
        for _ in range(3):
            if not same:
                lo, hi = 2 * rng.randrange(0, 5), 2 * rng.randrange(6, 13)
            start.append([] if rng.random() < 0.03 else nodes(rng, lo, hi, not same))
        if same and any(not N for N in start):
            start = [N or list(start[0]) for N in start]
            start = [N or nodes(rng, lo, hi, False) for N in start]
        out.append(c23.heights(rng, {"k": "linear", "t": "d", "points": POINTS, "ops": history(rng, start, same)}))
    return out


CHECK = Check(
    "C24",
    [Part("piecewise linear functions", "functions.cc", "Trace_PiecewiseLinear", cases, step=("StartPL", "StepPL"), units=(0, 1, 3),
          consts="CONSTANT Points = %d" % POINTS)],
    MODELS,
    assumptions=["functions that are combined have the same domain or vanish at the ends of their domains",
                 "nodes lie on a grid and values are multiples of 1/64; rounding of intersections is tolerated"],
    rule="all pairs of functions of the model plus random sequences of operations on three functions")
