from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS OnSphere OnTorus Antipodal Export
CONSTANTS Radii = {%s}
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Samples", CFG % "1, 2", CFG % "1, 2, 3", export=True)]


def cases(rng, tier, exported):
    quick = tier == "quick"
    out = []
    todo = [tuple(x) for x in exported["MC_Samples"]]
    rng.shuffle(todo)
    for r in (1, 2, 3):
        angles = [[a, b] for a, b, s in todo if s == r]
        for i in range(0, len(angles), 12):
            part = angles[i:i + 12]
            t = rng.choice(["float", "double"])
            out.append({"k": "sphere", "angles": part, "r": rng.randrange(1, 6), "type": t,
                        "c": rng.choice([[0, 0, 0], [rng.randrange(-3, 4), rng.randrange(-3, 4), rng.randrange(-3, 4)]])})
            out.append({"k": "torus", "angles": [[a, rng.randrange(24)] for a, b in part], "R": rng.randrange(3, 7), "r": r, "type": t})
    for _ in range(6 if quick else 40):
        n = rng.choice([1500, 2000, 3000])
        out.append({"k": "sampleSphere", "n": n, "type": rng.choice(["float", "double"])})
        R = rng.choice([2, 3, 4])
        r = rng.randrange(1, R)
        out.append({"k": "sampleTorus", "n": n, "R": R, "r": r, "outer": 50 + (r * 31831) // (1000 * R), "type": rng.choice(["float", "double"])})
    for n in (0, 1, 2):
        out.append({"k": "sampleSphere", "n": n, "type": "double"})
    for n in list(range(0, 8)) + [rng.randrange(20, 45) for _ in range(6 if quick else 30)]:
        for p, q in [(0, 1), (1, 1), (rng.randrange(1, 5), 5), (1, 2)]:
            out.append({"k": "graph", "n": n, "p": p, "q": q, "type": "double"})
            if p < q:
                out.append({"k": "weighted", "n": n, "p": p, "q": q, "type": "double"})
    return out


CHECK = Check(
    "C38", [Part("samples", "samples.cc", "Trace_Samples", cases, accept="AcceptSample", shake=(900, -900, 1200))], MODELS,
    assumptions=["the generators seed themselves, so frequencies are only compared with intervals that are left with negligible probability",
                 "link probabilities of weighted random graphs are less than one"],
    rule="all angles that are multiples of fifteen degrees; samples of up to 3000 points; graphs with up to 44 vertices")
