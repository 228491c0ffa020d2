import c01
import gen
from vlib import Check, Part


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Persistence"]
    if len(ex) > 800:
        ex = rng.sample(ex, 800)
    for F in ex:
        if F:
            out.append({"k": "euler", "t": "d", "K": F, "W": gen.weights(rng, F)})
    for _ in range(400 if tier == "quick" else 4000):
        F = [list(s) for s in gen.random_filtration(rng, gen.any_complex(rng, rng.choice(["small", "small", "medium"])))] or [[3]]
        out.append({"k": "euler", "t": rng.choice("dfs"), "K": F, "W": gen.weights(rng, F)})
    for _ in range(4 if tier == "quick" else 40):      # many components
        V = gen.labels(rng, rng.randrange(130, 300))
        F = [list(s) for s in gen.random_filtration(rng, gen.closure([[v] for v in V] + [rng.sample(V, 3) for _ in range(rng.randrange(9))]))]
        out.append({"k": "euler", "t": rng.choice("dfs"), "K": F, "W": gen.weights(rng, F)})
    return out


def sequences(rng, tier, exported):
    out = []
    for _ in range(400 if tier == "quick" else 4000):
        ds = rng.sample(range(rng.choice([3, 5, 9])), rng.randrange(0, 4))
        if rng.random() < 0.4:
            ds.sort()
        out.append({"k": "sequence", "D": [
            {"dim": d, "inf": [rng.randrange(-9, 10) for _ in range(rng.randrange(4))],
             "pts": [[rng.randrange(-9, 10), rng.randrange(-9, 10)] for _ in range(rng.randrange(4))]} for d in ds]})
    return out


CHECK = Check(
    "C31",
    [Part("euler characteristic", "constructions.cc", "Trace_Constructions", cases, accept="AcceptEuler", units=(0, 1, 2, 3)),
     Part("sequences", "constructions.cc", "Trace_Constructions", sequences, accept="AcceptSequence", units=(0, 1, 2, 3))],
    [c01.MODEL],
    assumptions=["non-empty complexes"],
    rule="every prefix of every filtration of the model plus random filtrations; sequences of diagrams of any dimensions in any order")
