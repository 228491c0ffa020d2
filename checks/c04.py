from vlib import Check, Part
import gen
from c01 import MODEL, filtered


def cases(rng, tier, exported):
    out = []
    small = exported["MC_Persistence"]
    if len(small) > 3000:
        small = rng.sample(small, 3000)
    for F in small:
        if F:
            out.append({"k": "elder", "t": "du", "K": F, "W": gen.weights(rng, F)})
    n, m, l = (500, 250, 6) if tier == "quick" else (4000, 1500, 40)
    for size, count in (("small", n), ("medium", m), ("large", l)):
        for _ in range(count):
            F = filtered(rng, size)
            if not F:
                continue
            out.append({"k": "elder", "t": rng.choice(["du", "fs"]), "K": F, "W": gen.weights(rng, F)})
    return out


CHECK = Check(
    "C04",
    [Part("elder", "components.cc", "Trace_Components", cases, accept="AcceptElder", units=(0, 1, 2, 3))],
    [MODEL],
    assumptions=["weights are integers embedded exactly into the data type (several scales and offsets), so that comparisons are exact"],
    rule="every filtration enumerated by the model plus random filtrations; diagram, pairing and callbacks of all trait combinations")
