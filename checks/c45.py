import math

from vlib import Check, Model, Part

CFG = ("SPECIFICATION Spec\nINVARIANTS Handshake Bounds Components1 Finite Brightness Export\nCHECK_DEADLOCK FALSE\n"
       "CONSTANTS Positions = %s MaxPoints = %d Radii = %s\n")
MODELS = [Model("MC_CloudPrograms", CFG % ("{0, 1, 2, 4}", 4, "{3, 5}"), CFG % ("{0, 1, 2, 3, 5}", 5, "{1, 3, 5, 7}"), export=True)]
PROGRAMS = ("local_dimensionality", "persistent_spines", "point_cloud_data_descriptors", "process_image_patches",
            "rips_distributions")


def points(rng, n, d, span):
    return [[rng.randrange(-span, span + 1) for _ in range(d)] for _ in range(n)]


def distribution(rng, xs=None):
    pts = [[x] for x in xs] if xs else points(rng, rng.choice([2, 3, 4, 5, 6, 7, 8, 12, 18]), rng.choice([1, 1, 2, 2, 3, 4]), rng.choice([2, 5, 9]))
    metric = rng.choice(["euclidean", "manhattan"])
    sq = {sum((a - b) ** 2 for a, b in zip(p, q)) if metric == "euclidean" else sum(abs(a - b) for a, b in zip(p, q)) ** 2 for p in pts for q in pts}
    R = rng.choice([0] + [r for r in range(1, 30) if r * r not in {4 * s for s in sq}] * 2)
    return {"k": "distribution", "pts": pts, "metric": metric, "R": R, "form": rng.randrange(6)}


def plain(c):
    u, n = c["u"], len(c["xs"])
    out = []
    for i, x in enumerate(c["xs"]):
        q = sorted(u * abs(x - y) for y in c["xs"])
        if c["desc"] == "density":
            out.append(-sum(q[:c["n"]]))
        else:
            out.append(q[-1] if c["p"] == 0 else sum(v ** c["p"] for v in q))
    return out


def descriptor(rng, xs=None):
    v, u = rng.choice([([1], 1), ([1], 1), ([3, 4], 5), ([0, 2, 0], 2), ([2, 1, 2], 3)])
    xs = xs or rng.sample(range(20), rng.choice([2, 3, 4, 4, 5, 6, 8, 8]))
    xs = list(xs)
    desc = rng.choice(["eccentricity", "eccentricity", "density"])
    n, p = len(xs), rng.choice([0, 1, 2])
    if n not in (1, 2, 4, 8):        # sums divided by the number of points are exact
        desc, p = "eccentricity", 0
    inv, norm = rng.random() < 0.4, rng.random() < 0.4
    if desc == "eccentricity" and p == 2:
        inv = norm = False
    c = {"k": "descriptor", "xs": xs, "v": v, "u": u, "d": len(v), "desc": desc, "p": p, "n": rng.randrange(1, n + 1), "inv": inv, "norm": norm,
         "R": u * rng.choice([1, 3, 5, 9, 15]), "top": rng.choice([0, 1, 2, 3]), "finite": rng.random() < 0.3}
    w = plain(c)
    c["scale"] = 1 if desc == "eccentricity" and p == 0 else n
    if norm and max(w) != min(w):
        c["scale"] = max(w) - min(w)
    return c


def spines(rng):
    span = rng.choice([2, 3, 5])
    pts = [list(p) for p in dict.fromkeys(tuple(p) for p in points(rng, rng.randrange(1, 8), rng.choice([1, 2, 2, 2]), span))]
    return {"k": "spines", "pts": pts, "R": rng.randrange(1, 3 * span), "method": rng.choice(["", "fast", "short", "dumb"])}


def contrast(m, q):
    return sum((q[i] - q[i + 1]) ** 2 for i in range(m * m) if (i + 1) % m) + sum((q[i] - q[i + m]) ** 2 for i in range(m * (m - 1)))


def patches(rng):
    m, n = rng.choice([2, 3, 3]), rng.choice([5, 6, 7, 9, 10, 12, 15, 20])
    kept, seen = [], {}
    for _ in range(200):
        if len(kept) == n:
            break
        q = [rng.randrange(rng.choice([2, 4])) for _ in range(m * m)]
        c = contrast(m, q)
        if seen.setdefault(c, q) == q and not (c == 0 and kept.count(q) > 1):
            kept.append(q)
            if rng.random() < 0.2 and len(kept) < n and c:
                kept.append(q)
    if len(kept) < 5:
        return patches(rng)
    rng.shuffle(kept)
    return {"k": "patches", "m": m, "patches": kept, "zeros": [[rng.random() < 0.3 for _ in q] for q in kept]}


def dimensions(rng):
    n = rng.randrange(4, 11)
    method = rng.choice(["nn", "nn", "mle", "pca"])
    k, K = rng.randrange(1, n), 0
    if method == "mle" or method == "nn" and rng.random() < 0.5:
        k, K = sorted([rng.randrange(1, 4), rng.randrange(2, min(n, 6) + 1)])
        if method == "nn" and K <= k + 1:
            K = k + 2
        if K > n or K > 6:
            return dimensions(rng)
    if method == "pca":
        v = rng.choice([[1, 0], [1, 1], [2, -1], [1, 1, 0], [1, 2, -2]])
        k = rng.randrange(2, n)
        return {"k": "dimensions", "pts": [[x * a + 3 for a in v] for x in rng.sample(range(-20, 21), n)], "method": method, "n": k, "K": 0, "smooth": False}
    return {"k": "dimensions", "pts": [[x] for x in rng.sample(range(30 if rng.random() < 0.5 else n + 1), n)], "method": method, "n": k, "K": K,
            "smooth": False}


def smoothing(rng):
    for _ in range(200):
        n, k = rng.randrange(3, 8), rng.randrange(1, 4)
        xs = rng.sample(range(10), n)
        near = [sorted(abs(x - y) for y in xs) for x in xs]
        # the estimates exist and the neighbours are unique
        if k + 2 <= n and all(d[k] <= 6 and d[k] != d[k + 1] and sum(d[:k + 1]) * k != sum(d[:k]) * (k + 1) for d in near):
            return {"k": "dimensions", "pts": [[x] for x in xs], "method": "nn", "n": k, "K": 0, "smooth": True, "times": rng.choice([1, 1, 2, 3])}
    return dimensions(rng)


def runs(rng, tier, exported):
    ex = exported["MC_CloudPrograms"]
    cap, many = (80, 40) if tier == "quick" else (1200, 500)
    out = []
    for xs in rng.sample(ex, min(cap, len(ex))):
        out += [distribution(rng, xs), descriptor(rng, xs)]
    for make, share in ((distribution, 2), (descriptor, 3), (spines, 3), (patches, 2), (dimensions, 2), (smoothing, 0.5)):
        out += [make(rng) for _ in range(int(many * share))]
    return out


CHECK = Check(
    "C45",
    [Part("runs", "programs.py", "Trace_CloudPrograms", runs, accept="AcceptCloudPrograms", flags=PROGRAMS, extra=("-lflann", "-llz4"))],
    MODELS,
    assumptions=["coordinates are small integers; no distance equals the radius", "descriptors are claimed for points on a line, sums of distances "
                 "of Euclidean neighbours for points in one dimension", "patches are powers of ten (or zero) and at least five",
                 "estimates of dimensions are claimed for points on a line"],
    rule="all point lists of the model on a line and random point clouds, patches and options of the programs")
