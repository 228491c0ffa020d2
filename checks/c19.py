from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS LawsOK Export\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS MaxLen = %d\n")
MODELS = [Model("MC_Diagrams", CFG % 3, CFG % 4, export=True)]


def point(rng, lim=40):
    x = rng.randrange(-lim, lim)
    r = rng.random()
    y = x if r < 0.2 else rng.randrange(-lim, lim) if r < 0.5 else x + rng.randrange(0, lim)
    return x, y


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Diagrams"]
    for h in (ex if len(ex) < 1200 else rng.sample(ex, 1200 if tier == "quick" else min(len(ex), 12000))):
        out.append({"k": "history", "t": rng.choice("dfi"), "ops": h + [{"op": "norms", "r": 1}, {"op": "norms", "r": 2}]})
    for _ in range(600 if tier == "quick" else 6000):
        ops = []
        for _ in range(rng.randrange(4, 30)):
            r, s = rng.randrange(1, 4), rng.randrange(1, 4)
            o = rng.choice(["add"] * 8 + ["unp", "unp", "again", "merge", "insert", "erase", "rdiag", "runp", "rdup", "setdim", "copy",
                            "norms", "norms", "fresh"])
            op = {"op": o, "r": r}
            if o in ("merge", "insert") and s == r:
                s = r % 3 + 1
            if o == "again":                      # duplicates
                prev = [p for p in ops if p["op"] == "add"]
                if not prev:
                    continue
                p = rng.choice(prev)
                op = {"op": "add", "r": r, "x": p["x"], "y": p["y"]}
            elif o == "add":
                op["x"], op["y"] = point(rng)
            elif o == "unp":
                op["x"] = rng.randrange(-5, 5)
            elif o in ("merge", "copy"):
                op["s"] = s
            elif o in ("insert", "erase"):
                op["a"] = rng.randrange(0, 3)
                op["b"] = op["a"] + rng.randrange(0, 3)
                if o == "insert":
                    op["s"], op["pos"] = s, rng.randrange(0, 5)
            elif o == "setdim":
                op["d"] = rng.randrange(0, 5)
            ops.append(op)
        out.append({"k": "history", "t": rng.choice("dfi"), "ops": ops})
    return out


CHECK = Check(
    "C19",
    [Part("histories", "diagrams.cc", "Trace_Diagrams", cases, step=("StartDiagrams", "StepDiagrams"), units=(0, 1, 3, 4))],
    MODELS,
    assumptions=["coordinates are multiples of 1/4", "a diagram is not merged into itself",
                 "whether diagrams with the same points in different order are equal is not prescribed"],
    rule="every history of the model plus random histories over three diagrams and three number types")
