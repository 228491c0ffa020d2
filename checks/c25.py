from vlib import Check, Model, Part
import readers

CFG = """SPECIFICATION Spec
INVARIANTS AllClosed MatrixAndList NamesAreNumbered NetworkFormats OneBased Filtered Export
CONSTANTS MaxN = %d Values <- %s
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Readers", CFG % (4, "QuickValues"), CFG % (4, "ThoroughValues"), export=True)]


def cases(rng, tier, exported):
    out = []
    one = lambda d, t=None: out.append({"t": t or rng.choice(["ud", "ud", "uf", "sd"]), "ops": [d]})
    # The graphs of the model, in the formats the model compares.
    ex = exported["MC_Readers"]
    for rows in rng.sample(ex, min(len(ex), 150 if tier == "quick" else 1500)):
        for d in readers.descriptions(rng, rows):
            one(d)
    for f in readers.FORMATS:
        for _ in range(100 if tier == "quick" else 900):
            one(readers.sometimes_missing(rng, f(rng), 0.04))
        for _ in range(5 if tier == "quick" else 40):
            one(f(rng, size=4 * f.__defaults__[-1]))
    for _ in range(4 if tier == "quick" else 12):
        one(readers.large(rng), "cd")
    rng.shuffle(out)
    return out


CHECK = Check(
    "C25",
    [Part("files", "readers.cc", "Trace_Readers", cases, step=("StartReader", "StepReader"), extra=readers.LIBS, flags=readers.FLAGS)],
    MODELS,
    assumptions=["weights are multiples of 1/1000, compared after rounding to these",
                 "vertices are unsigned integers (wide enough for the file), weights floating point numbers",
                 "well-formed, non-empty files; identifiers of one file are either all numbers or all names; no self loops; symmetric adjacency matrices",
                 "PLY files have at least one triangle; the functor applies to formats that derive weights of edges from vertices"],
    rule="every graph of the model in eight formats plus random files of fifteen kinds; comments, blank lines, white space and notation of numbers vary at random")
