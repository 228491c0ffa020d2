import math

from vlib import Check, Model, Part
import c09

CFG = ("SPECIFICATION Spec\nINVARIANTS CechIsComplex CechGrows InRips Jung BetaShrinks BetaSymmetric Hairs Gabriel Relative Export\n"
       "CHECK_DEADLOCK FALSE\nCONSTANTS Grid = %s N = %d MaxR = %d\n")
MODELS = [Model("MC_Geometry", CFG % ("{0, 1, 3}", 3, 4), CFG % ("{0, 1, 2}", 4, 4), export=True)]


def distinct(pts):
    return [list(p) for p in dict.fromkeys(tuple(p) for p in pts)]


def cech(rng, tier, exported):
    out = []
    ex = exported["MC_Geometry"]
    cap = 900 if tier == "quick" else 6000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    for x in ex:
        out.append({"k": "cech", "t": "d", "pts": x["pts"], "R": x["R"], "hair": rng.choice([0, 0, -1, 1])})
    for _ in range(450 if tier == "quick" else 4000):
        span = rng.choice([2, 3, 5])
        pts = distinct(c09.points(rng, rng.randrange(1, 8), rng.choice([1, 2, 2, 2]), span))
        out.append({"k": "cech", "t": "d", "pts": pts, "R": rng.randrange(1, 4 * span), "hair": rng.choice([0, 0, -1, 1])})
    return out


def region(rng, pts):
    t, b = rng.choice("df"), rng.randrange(2, 9)
    return {"k": "beta", "t": t, "pts": pts, "b": b, "hair": 0 if t == "f" else rng.choice([0, 0, 1, -1 if b > 2 else 1])}


def near(rng):
    """A point so close to the border of the smallest region of two others that the difference needs all digits."""
    while True:
        a, b = rng.randrange(4000, 7000), rng.randrange(4000, 7000)
        if math.gcd(a, b) == 1:
            break
    sign = rng.choice([-1, 1])
    c = sign * pow(a, -1, b)
    d = (sign - a * c) // b
    m = rng.choice([-1, 0]) * sign
    u, v = rng.randrange(-300, 300), rng.randrange(-300, 300)
    pts = [[u + a, v + b], [u + c + m * b, v + d - m * a], [u, v]]
    rng.shuffle(pts)
    return {"k": "beta", "t": "d", "pts": pts, "b": 2, "hair": 0}


def beta(rng, tier, exported):
    out = []
    ex = exported["MC_Geometry"]
    cap = 900 if tier == "quick" else 6000
    if len(ex) > cap:
        ex = rng.sample(ex, cap)
    for x in ex:
        out.append(region(rng, x["pts"]))
    for _ in range(700 if tier == "quick" else 6000):
        span = rng.choice([2, 4, 10, 40])
        pts = distinct(c09.points(rng, rng.randrange(1, 13), rng.choice([1, 2, 2, 3, 4]), span))
        out.append(region(rng, pts))
    for _ in range(60 if tier == "quick" else 500):
        out.append(near(rng))
    return out


CHECK = Check(
    "C11",
    [Part("cech", "geometry.cc", "Trace_Geometry", cech, accept="AcceptCech", units=(0, 1, 3)),
     Part("beta", "geometry.cc", "Trace_Geometry", beta, accept="AcceptBeta", units=(0, 1, 3))],
    MODELS,
    assumptions=["Cech complexes of points on a line or in the plane with integer coordinates and a radius that is a "
                 "multiple of one half", "beta is at least one and a multiple of one half",
                 "points exactly on the border of a region may be counted either way, unless beta is changed by a hair (a factor of 1 +- 10^-9, as is done with radii)"],
    rule="all point lists of the model plus random point sets in up to four dimensions (Cech: two)")
