from vlib import Check, Model, Part
import gen

MODEL = Model(
    "MC_Persistence",
    "SPECIFICATION Spec\nINVARIANTS TypeOK RolesOK BettiOK PersistentOK DualOK EulerOK ElderOK Incremental Export\n"
    "CHECK_DEADLOCK FALSE\nCONSTANTS Vertices = {1, 2, 3} MaxDim = 2 MaxLen = 7\n",
    "SPECIFICATION Spec\nINVARIANTS TypeOK RolesOK BettiOK PersistentOK DualOK EulerOK ElderOK Incremental Export\n"
    "CHECK_DEADLOCK FALSE\nCONSTANTS Vertices = {1, 2, 3, 4} MaxDim = 2 MaxLen = 7\n",
    export=True)


def filtered(rng, size):
    K = gen.any_complex(rng, size)
    F = gen.random_filtration(rng, K)
    return [list(rng.sample(s, len(s))) for s in F]


def cases(rng, tier, exported):
    out = []
    small = exported["MC_Persistence"]
    if len(small) > 3000:
        small = rng.sample(small, 3000)
    for F in small:
        out.append({"k": "diagrams", "t": "du", "K": F, "W": gen.weights(rng, F)})
    n, m, l = (500, 120, 4) if tier == "quick" else (3000, 800, 20)
    for size, count in (("small", n), ("medium", m), ("large", l)):
        for _ in range(count):
            F = filtered(rng, size)
            t = rng.choice(["du", "du", "fs", "dl", "iu"])
            out.append({"k": "diagrams", "t": t, "K": F, "W": gen.weights(rng, F)})
    return out


CHECK = Check(
    "C01",
    [Part("diagrams", "persistence.cc", "Trace_Persistence", cases, accept="AcceptDiagrams", units=(0, 1, 2, 3))],
    [MODEL],
    assumptions=["weights are integers embedded exactly into the data type (several scales and offsets), so that comparisons are exact"],
    rule="every filtration enumerated by the model plus random filtrations of random, flag and known "
         "complexes; weights monotone, tied, decreasing, constant or arbitrary")
