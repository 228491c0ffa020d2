from vlib import Check, Model, Part
import readers

CFG = """SPECIFICATION Spec
INVARIANTS ReadsWhatIsWritten Export
CONSTANTS Names <- %s MaxLines = %d MaxReads = %d Forget = TRUE
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_ReaderHistories", CFG % ("Three", 2, 2), CFG % ("Three", 2, 3), export=True)]


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_ReaderHistories"]
    for h in rng.sample(ex, min(len(ex), 500 if tier == "quick" else 4000)):
        lines = [[{"k": "e", "u": u, "v": v, "hw": False, "w": 0} for u, v in L] for L in h]
        out.append({"t": "ud", "ops": [readers.edge_list(rng, L) for L in lines]})
    n = 25 if tier == "quick" else 200
    for f in readers.FORMATS:
        for _ in range(n):
            # Small and large files in turn, so that remains are visible.
            out.append({"t": rng.choice(["ud", "uf", "sd"]),
                        "ops": [f(rng, **({} if rng.random() < 0.5 or f is readers.generic else {"size": 4})) for _ in range(rng.randrange(2, 5))]})
    for _ in range(3 * n):
        out.append({"t": "ud", "ops": [rng.choice(readers.FORMATS)(rng) for _ in range(5)]})
    for _ in range(4 * n):
        out.append({"t": "ud", "ops": [readers.generic(rng) for _ in range(rng.randrange(2, 6))]})
    for c in out:
        if rng.random() < 0.3:
            c["ops"] = [readers.sometimes_missing(rng, d, 0.3) for d in c["ops"]]
    rng.shuffle(out)
    return out


CHECK = Check(
    "C26",
    [Part("readings", "readers.cc", "Trace_Readers", cases, step=("StartReader", "StepReader"), extra=readers.LIBS, flags=readers.FLAGS)],
    MODELS,
    assumptions=["files as for C25", "settings may change between two readings and apply to the next one"],
    rule="all histories of the model plus random sequences of two to five files per reader object, in one format or several")
