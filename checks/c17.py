import c16
import gen
from vlib import Check, Part


def cases(rng, tier, exported):
    out = []
    for _ in range(900 if tier == "quick" else 7000):
        K = c16.any_case(rng, exported)
        out.append({"k": "spine", "t": rng.choice("dfs"), "K": K, "W": c16.weights(rng, K), "slow": len(K) < 45})
    for _ in range(80 if tier == "quick" else 800):
        K = [list(s) for s in gen.any_complex(rng, "medium")]
        rng.shuffle(K)
        out.append({"k": "spine", "t": rng.choice("dfs"), "K": K, "W": c16.weights(rng, K), "slow": len(K) < 45})
    return out


def faces(rng, tier, exported):
    return [dict(c, k="faces") for c in cases(rng, tier, exported) if c["slow"] and rng.random() < 0.4]


CHECK = Check(
    "C17",
    [Part("spines", "constructions.cc", "Trace_Constructions", cases, accept="AcceptSpine", units=(0, 1, 2, 3)),
     Part("free faces", "constructions.cc", "Trace_Constructions", faces, accept="AcceptFaces")],
    [c16.MODEL],
    assumptions=["that the result is reached by collapses is decided by its consequences: subcomplex, trivial relative "
                 "homology, nothing left to collapse"],
    rule="every complex of the model (where all collapsing orders are explored) plus random and known complexes")
