from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS ShiftLaw ScaleLaw Symmetric CauchySchwarz SumOfSquares KurtosisBound Centred MedianLaws BigLaws Sharp Export
CONSTANTS Values <- %s MaxN = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Statistics", CFG % ("QuickValues", 5), CFG % ("ThoroughValues", 6), export=True)]


def scale(rng):
    """Other scales and positions of floating point samples."""
    return {"scale": rng.choice([0, 0, -30, 20, 5]), "shift": rng.choice([0, 0, 2 ** 20, -2 ** 17])}


def cases(rng, tier, exported):
    out = []
    samples = exported["MC_Statistics"]
    if tier == "quick":
        samples = rng.sample(samples, min(250, len(samples)))
    for _ in range(60 if tier == "quick" else 600):
        top = rng.choice([3, 20, 20])
        samples = samples + [[rng.randrange(-top, top + 1) for _ in range(rng.randrange(0, 13))]]
    # Sums that exceed the range of narrow types
    for _ in range(40 if tier == "quick" else 400):
        low, top = rng.choice([(0, 20), (10, 40), (-40, -10), (20, 60)])
        samples = samples + [[rng.randrange(low, top + 1) for _ in range(rng.randrange(4, 13))]]
    # Long samples of small values
    for _ in range(12 if tier == "quick" else 100):
        top, n = rng.choice([(1, 60), (1, 33), (3, 25)])
        samples = samples + [[rng.randrange(-top, top + 1) for _ in range(n)]]
    samples = samples + [[], [], [0], [5], [3, 3], [2] * 7]
    for x in samples:
        types = ["int", "double", "list", "short", "char", "float"]
        if min(x, default=0) >= 0:
            types += ["byte"] * 3
        out.append({"k": "sample", "x": x, "t": rng.choice(types), **scale(rng)})
        y = list(x)
        rng.shuffle(y)
        if rng.random() < 0.5:
            y = [rng.randrange(-20, 21) for _ in range(len(x))]
        if rng.random() < 0.2:
            y = y[:rng.randrange(len(y) + 1)] + [1] * rng.randrange(3)
        out.append({"k": "covariance", "x": x, "y": y, "t": rng.choice(["int", "double", "char"]), **scale(rng)})
    for _ in range(60 if tier == "quick" else 600):
        n = rng.randrange(1, 400)
        sign = rng.choice([(1,), (1, -1)])
        big = rng.choice([2 ** 24, 2 ** 25, 2 ** 26 + 8, 1000])
        x = [rng.choice(sign) * rng.choice([1, 1, 2, 3, 5]) for _ in range(n)]
        for _ in range(rng.randrange(3)):
            x.insert(rng.randrange(len(x)), rng.choice(sign) * rng.choice([2 ** 20, 2 ** 24]))
        out.append({"k": "sum", "x": x, "init": rng.choice([0, big, -big])})
    for _ in range(50 if tier == "quick" else 500):
        x = rng.sample(range(-30, 30), rng.randrange(1, 9))
        n = rng.choice([5, 8, 40, 64, 100])
        out.append({"k": "replicates", "x": x if rng.random() < 0.9 else [], "n": rng.choice([0, 1, n])})
        a = rng.randrange(1, 16)
        out.append({"k": "percentile", "x": x, "n": n, "a": a})
        out.append({"k": "basic", "x": x, "n": n, "a": a})
        out.append({"k": "error", "x": [v % 6 for v in x][:5], "n": rng.choice([2, 5, 9, 14])})
        if len(x) > 1:
            out.append({"k": "student", "x": x, "n": n, "a": rng.randrange(1, 8)})
    return out


def histories(rng, tier, exported):
    out = []
    for _ in range(150 if tier == "quick" else 1500):
        value = mass = init = rng.choice([0, 2 ** 29, 2 ** 29 + 64, 2 ** 28, 3 * 2 ** 26, 2 ** 24 * 5])
        ops = []
        for _ in range(rng.randrange(5, 120)):
            k = rng.random()
            if k < 0.92 or value < 0:
                v = rng.choice([1, 2, 16, 32, 33, 48, 64, 100])
                if mass + v < 2 ** 29 + 2 ** 20:
                    op = rng.choice(["add", "add", "add", "sub"])
                    ops.append({"op": op, "v": v})
                    value += v if op == "add" else -v
                    mass += v
            elif k < 0.96:
                f = rng.choice([2, 4, 64, 1024, 4096])
                ops.append({"op": "div", "v": f, "frac": rng.random() < 0.5})
                value, mass = value // f, mass // f
            else:
                f = rng.choice([2, 3, 4, 64])
                if mass * f < 2 ** 29:
                    ops.append({"op": "mul", "v": f})
                    value, mass = value * f, mass * f
        if ops:
            out.append({"k": "history", "init": init, "ops": ops})
    return out


CHECK = Check(
    "C35",
    [Part("statistics", "statistics.cc", "Trace_Statistics", cases, accept="AcceptStatistic",
          shake=(40, -40, 7)),
     Part("sums", "statistics.cc", "Trace_Sums", histories, step=("StartSum", "StepSum"), shake=(5000, -5000))],
    MODELS,
    assumptions=["samples are small integers, so that exact statistics are known"],
    rule="samples of up to twelve integers, resamplings whose statistics are logged, running sums of single precision numbers")
