import matchings
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS NonNegative Equivalent Independent Optimal Export\nPROPERTY Terminates\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS N = 3 Values = %s\n")
MODELS = [Model("Munkres", CFG % "{0, 1}", CFG % "{0, 1, 3}", export=True)]


def scaled(rng, C, **more):
    """Costs are multiples of a power of two."""
    t = rng.choice("dfi")
    return dict({"k": "assignment", "t": t, "C": C, "e": 0 if t == "i" else rng.choice([0, 0, -10, -30, -60, 10, 40])}, **more)


def cases(rng, tier, exported):
    out = []
    ex = exported["Munkres"]
    for C in (ex if len(ex) < 4000 else rng.sample(ex, 4000)):
        C = [list(r) for r in C]
        rng.shuffle(C)
        out.append(scaled(rng, C))
    for _ in range(900 if tier == "quick" else 8000):
        n = rng.randrange(1, 7)
        lo, hi = rng.choice([(0, 2), (0, 3), (0, 10), (-5, 5), (0, 1000)])
        C = [[rng.randrange(lo, hi) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.2:          # rows that differ by constants
            C = [[C[0][j] + k for j in range(n)] for k in range(n)]
        out.append(scaled(rng, C))
    for _ in range(120 if tier == "quick" else 1200):
        n = rng.randrange(7, 26)
        lo, hi = rng.choice([(0, 3), (0, 10), (0, 200), (-50, 50), (0, 10000)])
        C = [[rng.randrange(lo, hi) for _ in range(n)] for _ in range(n)]
        u, v = matchings.hungarian(C)
        out.append(scaled(rng, C, u=u, v=v))
    return out


CHECK = Check(
    "C21",
    [Part("assignments", "diagrams.cc", "Trace_Matching", cases, accept="AcceptAssignment")],
    MODELS,
    assumptions=["costs that are integral multiples of a power of two", "matrices with more than six rows are decided by potentials that the specification verifies"],
    rule="all matrices of the model (where every choice of the algorithm is explored) plus random matrices of up to 25 rows")
