from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Square AddTwice AddSelf AddCommutes Local DualTwice DualEntries LowCancels Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS N = %d Depth = %d\n")
MODELS = [Model("MC_BoundaryMatrix", CFG % (2, 3), CFG % (3, 3), export=True)]


def history(rng, n=None, rows=None, length=None):
    n = n or rng.randrange(1, 9)
    rows = rows or rng.choice([n, n, n + 4])  # rows beyond the columns occur in rectangular use
    ops = [{"op": "resize", "n": n}]
    big = {j: 0 for j in range(n)}            # largest row index per column (upper bound)
    top = 0
    for _ in range(length or rng.randrange(3, 28)):
        k = rng.random()
        j = rng.randrange(n)
        if k < 0.30:
            c = rng.sample(range(rows), rng.randrange(0, rows + 1))
            ops.append({"op": "set", "j": j, "c": c})
            top = max([top] + c)
        elif k < 0.66:
            ops.append({"op": "add", "s": rng.randrange(n), "t": j})
        elif k < 0.74:
            ops.append({"op": "clear", "j": j})
        elif k < 0.80:
            ops.append({"op": "dim", "j": j, "d": rng.randrange(0, 5)})
        elif k < 0.88:
            ops.append({"op": "copy"})
        elif k < 0.91 and top < n:
            n = n + rng.randrange(1, 3)
            ops.append({"op": "resize", "n": n})
        elif rows <= n or top < n:
            ops.append({"op": "dual"})
            if rng.random() < 0.4:
                ops.append({"op": "dual"})
        if length is None and rng.random() < 0.04:
            ops.append(load(rng))
            n = len(ops[-1]["lines"])
            rows, top = n, n - 1
            if n == 0:
                break
    return {"ops": ops}


def load(rng):
    n = rng.randrange(1, 8)
    lines, text = [], ""
    for j in range(n):
        k = rng.choice([0] + list(range(2, j + 1))) if j >= 2 else 0
        c = rng.sample(range(j), k) if k else []
        lines.append([max(0, k - 1), c])
        while rng.random() < 0.25:
            text += rng.choice(["# comment 1 2\n", "\n", "#\n", "  \n", "#0\n"])
        sep = rng.choice([" ", "  ", "\t"])
        text += rng.choice(["", " "]) + sep.join(str(x) for x in [max(0, k - 1)] + c) + rng.choice(["", " "]) + "\n"
    if rng.random() < 0.3:
        text = text[:-1]
    return {"op": "load", "text": text, "lines": lines}


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_BoundaryMatrix"]
    cap = 4000 if tier == "quick" else 20000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    size = 2 if tier == "quick" else 3
    for h in ex:
        out.append({"ops": [{"op": "resize", "n": size}] + h})
    for _ in range(600 if tier == "quick" else 6000):
        out.append(history(rng))
    for _ in range(40 if tier == "quick" else 400):    # long columns, many columns
        out.append(history(rng, rng.randrange(2, 4), rng.choice([50, 150, 300]), 8))
        out.append(history(rng, rng.randrange(30, 90), None, 5))
    for _ in range(100 if tier == "quick" else 1000):
        out.append({"ops": [load(rng), {"op": "copy"}, {"op": "dual"}, {"op": "dual"}]})
    return out


CHECK = Check(
    "C03",
    [Part("histories", "matrix.cc", "Trace_BoundaryMatrix", cases, step=("StartMatrix", "StepMatrix"))],
    MODELS,
    assumptions=["columns are set without repeated entries, as boundaries never repeat a face"],
    rule="all histories of the model up to its depth plus random histories of set, add, clear, resize, dimension, "
         "dualise, copy and load, replayed in four representations with a full observation after every call")
