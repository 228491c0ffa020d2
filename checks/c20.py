import matchings
from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Symmetric ZeroOK DiagonalIrrelevant OrderIrrelevant Ordered EmptyOK Enumerated SquaredOK HausdorffOK\n"
       "TriangleOK Export\nCHECK_DEADLOCK FALSE\nCONSTANTS Grid = %s MaxPoints = 2\n")
MODEL = Model("MC_Matching", CFG % "{0, 2, 6}", CFG % "{0, 2, 4, 8}", export=True)


def points(rng, n, lim):
    out = []
    for _ in range(n):
        x = 2 * rng.randrange(-lim, lim)
        r = rng.random()
        y = x if r < 0.1 else x + 2 * rng.randrange(0, lim) if r < 0.9 else x - 2 * rng.randrange(0, lim)
        out.append([x, y])
    return out


def perturbed(rng, P, amount):
    out = [[x + 2 * rng.randrange(-amount, amount + 1), y + 2 * rng.randrange(-amount, amount + 1)] for x, y in P
           if rng.random() < 0.9]
    out += points(rng, rng.randrange(0, 2), 6)
    rng.shuffle(out)
    return out


def pair(rng, n, m, lim):
    A = points(rng, n, lim)
    r = rng.random()
    if r < 0.35:
        # Points far away from the diagonal that move only slightly
        A = [[x, x + (-1 if rng.random() < 0.1 else 1) * 2 * rng.randrange(lim, 3 * lim)] for x, _ in A]
        a = rng.randrange(0, lim // 2 + 1)
        B = [[x + 2 * rng.randrange(-a, a + 1), y + 2 * rng.randrange(-a, a + 1)] for x, y in A]
        rng.shuffle(B)
    elif r < 0.6:
        B = perturbed(rng, A, rng.choice([0, 1, 3]))[:max(m, 1)]
    elif r < 0.7:
        B = list(A)[:m]
        rng.shuffle(B)
    else:
        B = points(rng, m, lim)
    return (A, B) if rng.random() < 0.5 else (B, A)


def small(rng, tier, exported):
    out = []
    ex = exported["MC_Matching"]
    for A, B in (ex if len(ex) < 1000 else rng.sample(ex, 1000 if tier == "quick" else min(len(ex), 9000))):
        out.append({"k": "distances", "t": rng.choice("df"), "d": rng.randrange(0, 3), "A": A, "B": B})
    for _ in range(500 if tier == "quick" else 5000):
        A, B = pair(rng, rng.randrange(0, 7), rng.randrange(0, 6), rng.choice([2, 5, 20]))
        out.append({"k": "distances", "t": rng.choice("df"), "d": rng.randrange(0, 3), "A": A, "B": B[:7]})
    return out


def large(rng, tier, exported):
    out = []
    for _ in range(150 if tier == "quick" else 1500):
        A, B = pair(rng, rng.randrange(6, 22), rng.randrange(6, 22), rng.choice([4, 20, 100]))
        pots = [matchings.potentials(A, B, p) for p in (1, 2)]
        cert = dict(matchings.bottleneck(A, B), a=[p[0] for p in pots], b=[p[1] for p in pots])
        out.append({"k": "distances", "t": "d", "d": 1, "A": A, "B": B, "cert": cert})
    return out


KNOWN = Part("bottleneck with the diagonal", "diagrams.cc", "Trace_Matching",
             lambda rng, tier, exported: [{"k": "distances", "t": "d", "d": 1, "A": [[0, 16], [20, 24]], "B": [[0, 16], [20, 48]]},
                                          {"k": "distances", "t": "d", "d": 1, "A": [[0, 16]], "B": [[0, 16], [20, 48]]}],
             accept="AcceptKnown")

CHECK = Check(
    "C20",
    [Part("small diagrams", "diagrams.cc", "Trace_Matching", small, accept="AcceptDistances", units=(0, 1, 2, 3, 4)),
     Part("large diagrams", "diagrams.cc", "Trace_Matching", large, accept="AcceptLarge", units=(0, 1, 2, 3, 4))],
    [MODEL],
    assumptions=["no points at infinity",
                 "bottleneck distances only for diagrams of the same size whose optimal matching stays away from the diagonal (known finding)", "coordinates are multiples of 1/2 so that distances to the diagonal are exact",
                 "larger diagrams are decided by certificates (potentials, matchings, blocked sets) that the specification verifies"],
    known=[(KNOWN, "bottleneckDistance does not match points of the second diagram with the diagonal: "
                   "{(0,4),(5,6)} and {(0,4),(5,12)} have distance 3.5 but 6 is returned; "
                   "{(0,4)} and {(0,4),(5,12)} have distance 3.5 but 0 and 3.5 are returned")],
    rule="all pairs of diagrams of the model plus random and perturbed pairs, in both orders")
