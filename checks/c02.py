from vlib import Check, Model, Part
import gen
from c01 import MODEL, filtered


def variants(rng, tier, exported):
    out = []
    small = exported["MC_Persistence"]
    if len(small) > 1500:
        small = rng.sample(small, 1500)
    for F in small:
        out.append({"k": "variants", "K": F, "W": gen.weights(rng, F), "max": [rng.randrange(0, len(F) + 2)]})
    n, m = (170, 40) if tier == "quick" else (1500, 400)
    for size, count in (("small", n), ("medium", m)):
        for _ in range(count):
            F = filtered(rng, size)
            b = sorted({0, len(F) // 2, len(F), rng.randrange(0, len(F) + 1)})
            out.append({"k": "variants", "K": F, "W": gen.weights(rng, F), "max": [rng.choice(b)]})
    return out


def agreement(rng, tier, exported):
    out = []
    n, l = (60, 12) if tier == "quick" else (400, 80)
    for size, count in (("medium", n), ("large", l)):
        for _ in range(count):
            F = filtered(rng, size)
            out.append({"k": "agreement", "K": F, "W": gen.weights(rng, F), "max": [], "all": rng.random() < 0.5})
    return out


CHECK = Check(
    "C02",
    [Part("variants", "persistence.cc", "Trace_Persistence", variants, accept="AcceptVariants", units=(0, 1, 2, 3)),
     Part("agreement", "persistence.cc", "Trace_Persistence", agreement, accept="AcceptAgreement", units=(0, 1, 2, 3))],
    [MODEL],
    assumptions=["weights are integers embedded exactly into the data type (several scales and offsets), so that comparisons are exact",
                 "inputs of the agreement part are too large to recompute in TLC: the variants are compared with each other"],
    rule="twelve variants (algorithm, representation, dualisation) per filtration, both flags, with and without index bound")
