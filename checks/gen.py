"""Seeded generators of complexes, graphs, filtrations and weights."""
import itertools


def faces(s):
    s = tuple(s)
    for k in range(1, len(s) + 1):
        yield from itertools.combinations(s, k)


def closure(simplices):
    out = set()
    for s in simplices:
        out.update(faces(sorted(s)))
    return out


def labels(rng, n, big=60000):
    """n distinct vertex labels: contiguous, shuffled, sparse or large."""
    m = rng.randrange(4)
    if m == 0:
        return list(range(n))
    if m == 1:
        off = rng.randrange(0, 9)
        l = [off + k for k in range(n)]
    elif m == 2:
        l = rng.sample(range(0, 4 * n + 4), n)
    else:
        l = rng.sample(range(0, big), n)
    rng.shuffle(l)
    return l


def random_complex(rng, nv, maxdim, density=0.5, maxsize=60, labelled=True):
    """A random complex (set of sorted tuples) on up to nv vertices; isolated
    vertices and several components are common."""
    lab = labels(rng, nv) if labelled else list(range(nv))
    top = []
    for v in lab:
        if rng.random() < 0.9:
            top.append((v,))
    ntop = max(1, int(nv * density * 2))
    for _ in range(rng.randrange(0, ntop + 1)):
        k = rng.randrange(1, min(maxdim, nv - 1) + 2) if nv > 1 else 1
        top.append(tuple(rng.sample(lab, k)))
    K = set()
    rng.shuffle(top)
    for s in top:
        L = K | closure([s])
        if len(L) <= maxsize:
            K = L
    return K


def flag_complex(rng, nv, p, maxdim, maxsize=80):
    lab = labels(rng, nv)
    E = {tuple(sorted(e)) for e in itertools.combinations(lab, 2) if rng.random() < p}
    K = {(v,) for v in lab} | E
    for k in range(3, maxdim + 2):
        for s in itertools.combinations(sorted(lab), k):
            if all(t in K for t in itertools.combinations(s, k - 1)):
                K.add(s)
                if len(K) >= maxsize:
                    return K
    return K


def random_filtration(rng, K):
    """A random linear extension of the face order (faces first)."""
    K = [tuple(sorted(s)) for s in K]
    remaining = set(K)
    order, placed = [], set()
    mode = rng.randrange(3)
    if mode == 0:        # by dimension, shuffled inside
        rng.shuffle(K)
        return sorted(K, key=len)
    if mode == 1:        # fully random extension
        avail = [s for s in K if len(s) == 1]
        while remaining:
            cand = [s for s in remaining
                    if all(t in placed for t in itertools.combinations(s, len(s) - 1) if t)]
            s = rng.choice(sorted(cand))
            order.append(s)
            placed.add(s)
            remaining.discard(s)
        return order
    # lower star of a random vertex order, ties shuffled
    vs = sorted({v for s in K for v in s})
    f = {v: rng.randrange(0, len(vs) + 1) for v in vs}
    rng.shuffle(K)
    return sorted(K, key=lambda s: (max(f[v] for v in s), len(s)))


def weights(rng, F):
    """Weights (integers) for a filtration: monotone with ties, distinct,
    decreasing, constant, or arbitrary; signs vary."""
    m = rng.randrange(6)
    n = len(F)
    if m == 0:
        w, out = rng.randrange(-20, 5), []
        for _ in range(n):
            w += rng.choice([0, 0, 1, 2, 5])
            out.append(w)
        return out
    if m == 1:
        off = rng.randrange(-50, 50)
        return [off + k for k in range(n)]
    if m == 2:
        w, out = rng.randrange(0, 40), []
        for _ in range(n):
            w -= rng.choice([0, 1, 3])
            out.append(w)
        return out
    if m == 3:
        c = rng.randrange(-3, 4)
        return [c] * n
    if m == 4:
        return [rng.randrange(-100, 101) for _ in range(n)]
    return [len(s) - 1 for s in F]


KNOWN_SPACES = {
    # boundary of the 3-simplex: 2-sphere
    "sphere": [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)],
    # 7-vertex torus (Moebius)
    "torus": [tuple(sorted(((i) % 7, (i + 1) % 7, (i + 3) % 7))) for i in range(7)]
             + [tuple(sorted(((i) % 7, (i + 2) % 7, (i + 3) % 7))) for i in range(7)],
    # 6-vertex projective plane
    "rp2": [(0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5), (0, 1, 5),
            (1, 2, 4), (2, 4, 5), (2, 3, 5), (1, 3, 5), (1, 3, 4)],
    # boundary of the 4-simplex: 3-sphere
    "s3": list(itertools.combinations(range(5), 4)),
    "ball3": [(0, 1, 2, 3)],
    "dunce": [(1,2,4),(2,3,4),(1,3,4)] and
             [(0,1,3),(1,2,3),(0,2,3),(0,3,4),(0,1,4),(1,2,4),(2,4,5),(0,2,5),(0,1,5),
              (1,2,6),(0,2,7),(0,6,7),(0,1,6),(2,6,7),(1,2,5),(0,2,6)],
}


def space(rng, name):
    top = KNOWN_SPACES[name]
    n = 1 + max(v for s in top for v in s)
    lab = labels(rng, n)
    return closure([tuple(lab[v] for v in s) for s in top])


def any_complex(rng, size="small"):
    if size == "small":
        nv, md, ms = rng.randrange(1, 8), rng.randrange(0, 4), 40
    elif size == "medium":
        nv, md, ms = rng.randrange(5, 14), rng.randrange(1, 5), 110
    else:
        nv, md, ms = rng.randrange(10, 30), rng.randrange(1, 4), 700
    r = rng.random()
    if r < 0.12:
        return space(rng, rng.choice(sorted(KNOWN_SPACES)))
    if r < 0.5:
        return flag_complex(rng, nv, rng.choice([0.2, 0.5, 0.8, 1.0]), md, ms)
    return random_complex(rng, nv, md, rng.choice([0.3, 0.6, 1.0]), ms)
