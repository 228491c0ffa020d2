from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS Symmetric Diagonal Semidefinite CauchySchwarz Additive OrderFree DensityBounds Export
CONSTANTS Side = %d MaxPoints = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Kernels", CFG % (2, 4), CFG % (3, 4), export=True)]


def points(rng, top, n):
    out = []
    for _ in range(n):
        x = rng.randrange(top)
        out.append([x, rng.randrange(x, top + 1)])
    return out


def pairs(rng, tier, exported):
    small = exported["MC_Kernels"]
    small = rng.sample(small, min(len(small), 300 if tier == "quick" else 5000))
    out = [tuple(p) for p in small]
    for _ in range(120 if tier == "quick" else 1000):
        top = rng.choice([3, 5, 8])
        D = points(rng, top, rng.choice([*range(7), 20]))
        E = points(rng, top, rng.choice([*range(7), 20]))
        if rng.random() < 0.3:
            E = D[:]
            rng.shuffle(E)
        out.append((D, E))
    return out


def cases(rng, tier, exported):
    out = []
    for D, E in pairs(rng, tier, exported):
        if rng.random() < 0.3:          # below the diagonal
            D, E = [[y, x] for x, y in D], [[y, x] for x, y in E] if rng.random() < 0.7 or len(D + E) > 12 else E
        out.append({"k": "multi", "D": D, "E": E, "sigma": 0})
        if sum(abs(y - x) for x, y in D + E) <= 40:
            out.append({"k": "linear", "D": D, "E": E, "t": rng.choice([1, 2, 5]), "type": rng.choice(["float", "double"])})
        life = rng.randrange(1, 5)
        D = [[x, x + life] for x, y in D]
        E = [[x, x + life] for x, y in E]
        if rng.random() < 0.3:
            D, E = ([[y, x] for x, y in A] for A in (D, E))
        out.append({"k": "default", "D": D, "E": E, "life": life, "p": rng.choice([1, 2] if not D or not E or D[0][0] < D[0][1] else [1, 3]), "t": rng.choice([1, 2, 4])})
    for _ in range(150 if tier == "quick" else 1500):
        k = rng.choice(["epanechnikov", "gauss"])
        top = 16 if k == "epanechnikov" else 6
        out.append({"k": k, "x": [rng.randrange(-top, top) for _ in range(rng.choice([*range(1, 9), 40]))], "at": rng.randrange(-top, top),
                    "h": rng.randrange(1, 6), "d": rng.randrange(1, 4), "sigma": rng.choice([1, 1, 2, 3]), "type": rng.choice(["list", "vector"])})
    return [c for c in out if c["k"] != "linear" or small_exponent(c)]


def small_exponent(c):
    """The kernel value must not underflow."""
    lin = lambda A, B: sum((p[1] - p[0]) * (q[1] - q[0]) * (1 + p[0] * q[0] + p[1] * q[1]) for p in A for q in B)
    return lin(c["D"], c["D"]) + lin(c["E"], c["E"]) - 2 * lin(c["D"], c["E"]) < 500 * c["t"]


def other_scales(rng, tier, exported):
    return [{"k": "multi", "D": [[0, 1]], "E": [[0, 2]], "sigma": s} for s in (1, 2)]


PART = Part("kernels", "kernels.cc", "Trace_Kernels", cases, accept="AcceptKernel", shake=(90, -90, 130))
KNOWN = Part("scales", "kernels.cc", "Trace_Kernels", other_scales, accept="AcceptKernel")
CHECK = Check(
    "C32", [PART], MODELS,
    assumptions=["coordinates are multiples of a unit that turns Gaussians into powers of two"],
    rule="pairs of small diagrams and random ones with up to six points, including reordered copies; samples of up to eight numbers",
    known=[(KNOWN, "the multi-scale kernel ignores the smoothing parameter in its exponents: multiScaleKernel({(0,1)},{(0,2)},sigma) for sigma = 1, 2")])
