from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS TrimLaws WordLaws FieldLaws PathLaws NumeralLaws Export
CONSTANTS Alphabet = {32, 9, 97, 46, 47, 44} MaxLength = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Utilities", CFG % 4, CFG % 5, export=True)]


def codes(s):
    return [ord(c) for c in s]


def numeral(rng):
    s = rng.choice(["", "", "-", "+"])
    n = str(rng.choice([0, 1, 7, 10, 42, 999, 1234, rng.randrange(100000)]))
    if rng.random() < 0.2:
        n = "00" + n
    k = rng.random()
    if k < 0.5:
        return s + n
    if k < 0.6:
        return s + n + "."
    f = "%0*d" % (rng.randrange(1, 4), rng.randrange(10))
    return s + (n if k < 0.9 else "") + "." + f


def cased(rng, s):
    return "".join(c.upper() if rng.random() < 0.4 else c for c in s)


SPECIAL = ["inf", "+inf", "-inf", "infinity", "+infinity", "-infinity", "nan"]
GARBAGE = ["", "x", "hello", "infx", "info", "nanx", "--1", "+-2", ".", "-", "infinit", "++inf", "abc12", "#3", "x1.5"]


def cases(rng, tier, exported):
    out = []
    small = exported["MC_Utilities"]
    if tier == "quick":
        small = rng.sample(small, min(500, len(small)))
    for s in small:
        out.append({"k": "text", "s": s})
        out.append({"k": "path", "s": s})
    many = 150 if tier == "quick" else 1500
    for _ in range(many):
        s = "".join(rng.choice(["a", "bc", " ", "  ", "\t", "\n", "\r", "\v", "\f", ",", ";", "1.5", "x-y", "\"", "%", "(", ".*", "\\"]) for _ in range(rng.randrange(0, 20)))
        out.append({"k": "text", "s": codes(s)})
        s = "".join(rng.choice(["a", "bc", ".", "..", "/", "//", "/", "x.txt", " ", "-", "."]) for _ in range(rng.randrange(0, 9)))
        out.append({"k": "path", "s": codes(s)})
        s = numeral(rng)
        # Single precision numbers have seven digits
        out.append({"k": "number", "s": codes(s), "t": rng.choice(["float", "double", "double"]) if len(s.split(".")[0]) < 5 else "double"})
        n = rng.choice([rng.randrange(10), 9, 10, 99, 100, 999, 1000, 10000, 99999, 100000, rng.randrange(1, 10 ** 6)])
        N = rng.choice([n, 10 * n, 10 * n + 9, n + 1, 10, 99, 100, 999, 1000, 99999, 100000, 999999, 1000000, 10 ** 9])
        if 0 < N and n <= N <= 10 ** 9:
            out.append({"k": "format", "n": n, "N": N, "fill": rng.choice([48, 48, 32, 95]), "t": rng.choice(["unsigned", "size"])})
        d = rng.randrange(0, 6)
        a, b = ([rng.randrange(-50, 51) for _ in range(d)] for _ in range(2))
        out.append({"k": "vector", "a": a, "b": b, "f": rng.randrange(-3, 4), "t": rng.choice(["int", "double"])})
        b = [v + rng.choice([0, 0, 1, -1, 2]) for v in a]
        if rng.random() < 0.1:
            b = b[:-1] if rng.random() < 0.5 else b + [0]
        if rng.random() < 0.3:
            b = list(a)
        out.append({"k": "close", "a": a, "b": b, "r": rng.choice([0, 1, 1, 4]), "t": rng.choice([0, 1, 16, 17])})
        a, b = ([rng.randrange(12) for _ in range(rng.randrange(8))] for _ in range(2))
        out.append({"k": "common", "a": a, "b": b, "t": rng.choice(["int", "short"])})
        lo = rng.randrange(-3, 3)
        out.append({"k": "range", "x": rng.randrange(-5, 6), "lo": lo, "hi": lo + rng.randrange(4)})
    for s in SPECIAL:
        for _ in range(3):
            out.append({"k": "number", "s": codes(cased(rng, s)), "t": rng.choice(["float", "double"])})
    for s in GARBAGE:
        for t in ("float", "double"):
            out.append({"k": "number", "s": codes(s), "t": t})
    for _ in range(30):
        s = rng.choice(["", "-", "+"]) + str(rng.randrange(100000))
        out.append({"k": "integer", "s": codes(s if rng.random() < 0.8 else rng.choice(["", "x", "-", "y1"])), "t": rng.choice(["int", "long"])})
    return out


CHECK = Check(
    "C37",
    [Part("utilities", "utilities.cc", "Trace_Utilities", cases, accept="AcceptUtility")],
    MODELS,
    assumptions=["texts consist of ASCII characters"],
    rule="all texts of the model and random ones; numerals with up to three decimals; vectors of up to five integers")
