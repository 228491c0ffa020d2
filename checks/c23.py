from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS PiecesOK PointsOK IntegralLinear IntegralPieces Triangle IndicatorOK Export\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS Cells = %d Values <- %s\n")
MODELS = [Model("MC_StepFunctions", CFG % (5, "QuickValues"), CFG % (6, "ThoroughValues"), export=True)]
CELLS, S, INF = 12, 64, 2000000000


def pieces(rng, values=None, cells=CELLS):
    """Disjoint pieces in any order, some of them touching."""
    cuts = sorted(rng.sample(range(1, cells), rng.randrange(2, 8)))
    out = []
    for a, b in zip(cuts, cuts[1:]):
        if rng.random() < 0.7:
            y = rng.choice(values) if values else rng.randrange(-5, 6)
            out.append({"a": 2 * a, "b": 2 * b, "y": S * y})
    rng.shuffle(out)
    return out


def diagram(rng):
    D = []
    inverted = rng.random() < 0.25
    offset = 0
    for _ in range(rng.randrange(1, 8)):
        x = rng.randrange(1, CELLS - 1)
        y = x if rng.random() < 0.15 else rng.randrange(x, CELLS)
        p = [2 * x, 2 * y]
        if inverted:
            p.reverse()
        elif rng.random() < 0.15:
            p[1] = INF
        D.append(p)
        if rng.random() < 0.2:
            D.append(list(p))
    return D


class Tracker:
    """Bounds of the values and number of fractional bits, to keep arithmetic exact."""

    def __init__(self):
        self.b, self.e = [0] * 4, [0] * 4

    def set(self, r, b, e):
        if b > 400 or e > 6:
            return False
        self.b[r], self.e[r] = b, e
        return True


def history(rng, start):
    ops, t = [], Tracker()
    fresh = {}
    for r, P in enumerate(start, 1):
        if isinstance(P, dict):
            ops.append({"op": "pif", "r": r, "D": P["D"], "v": 0})
            t.set(r, len(P["D"]), 0)
            fresh[r] = None
        else:
            ops.append({"op": "build", "r": r, "pieces": P, "v": 0})
            t.set(r, max([abs(p["y"]) // S for p in P] + [0]), 0)
            fresh[r] = P
    for _ in range(rng.randrange(2, 9)):
        r, s, u = rng.randrange(1, 4), rng.randrange(1, 4), rng.randrange(1, 4)
        o = rng.choice(["add"] * 4 + ["sub"] * 3 + ["shift", "neg", "mul", "div", "abs", "pow", "copy", "normalize"])
        op = {"op": o, "r": r, "s": s, "v": rng.randrange(0, 3)}
        b, e = t.b[s], t.e[s]
        if o in ("add", "sub"):
            op["u"] = u
            b, e = b + t.b[u], max(e, t.e[u])
        elif o == "shift":
            op["l"] = S * rng.randrange(-4, 5)
            b += 4
        elif o == "mul":
            op["l"] = rng.choice([-3, -1, 0, 2, 3])
            b *= 3
        elif o == "div":
            op["l"] = rng.choice([2, -2, 1])
            e += 1
        elif o == "pow":
            op["p"] = rng.choice([1, 2, 2, 3])
            if b ** op["p"] > 400:
                continue
            b, e = b ** op["p"], e * op["p"]
        elif o == "normalize":
            P = fresh.get(s)
            if not P or any(p["y"] < 0 for p in P) or max(p["y"] for p in P) // S not in (1, 2, 4):
                continue
            op["a"], op["b"] = rng.choice([(0, 1), (0, 10), (1, 3), (-1, 1)])
            b, e = 10, 2
        if not t.set(r, b, e):
            continue
        fresh[r] = fresh.get(s) if o == "copy" else None
        ops.append(op)
    return ops


def heights(rng, c):
    """Very small or very large values, unless operations fix their scale."""
    if all(o["op"] not in ("pif", "normalize", "pow") for o in c["ops"]):
        c["height"] = rng.choice([0, 0, 1, 2])
    return c


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_StepFunctions"]
    for P, Q in (ex if len(ex) < 700 else rng.sample(ex, 700 if tier == "quick" else min(8000, len(ex)))):
        P, Q = ([dict(p, y=p["y"] * S) for p in R] for R in (P, Q))
        ops = [{"op": "build", "r": 1, "pieces": P, "v": 0}, {"op": "build", "r": 2, "pieces": Q, "v": 0},
               {"op": "add", "r": 3, "s": 1, "u": 2, "v": rng.randrange(2)}, {"op": "sub", "r": 3, "s": 3, "u": 2, "v": rng.randrange(2)},
               {"op": "sub", "r": 3, "s": 1, "u": 2, "v": rng.randrange(2)}, {"op": "abs", "r": 3, "s": 3, "v": 0},
               {"op": "add", "r": 3, "s": 3, "u": 3, "v": rng.randrange(2)}]
        out.append(heights(rng, {"k": "steps", "t": rng.choice("df"), "cells": CELLS, "ops": ops}))
    for _ in range(900 if tier == "quick" else 8000):
        start = [{"D": diagram(rng)} if rng.random() < 0.3 else pieces(rng, rng.choice([None, None, [0, 1, 2, 4], [1, 4, 2]]))
                 for _ in range(3)]
        out.append(heights(rng, {"k": "steps", "t": rng.choice("df"), "cells": CELLS, "ops": history(rng, start)}))
    return out


CHECK = Check(
    "C23",
    [Part("step functions", "functions.cc", "Trace_StepFunctions", cases, step=("StartStep", "StepStep"), units=(0, 1, 3, 4), consts="CONSTANT Cells = %d" % CELLS)],
    MODELS,
    assumptions=["end points are even numbers, functions are compared on the cells between them",
                 "values are multiples of 1/64, so that arithmetic is exact", "floating point domains",
                 "values at end points are prescribed only for functions given by pieces",
                 "indicator functions of diagrams whose finite points all lie on the same side of the diagonal"],
    rule="all pairs of functions of the model plus random sequences of operations on three functions")
