from vlib import Check, Model, Part

CFG = """SPECIFICATION Spec
INVARIANTS BoundaryIsCycles LinkShape Partition EdgeCount Closed Export
CONSTANTS N = %d MaxFaces = %d
CHECK_DEADLOCK FALSE
"""
MODELS = [Model("MC_Mesh", CFG % (5, 6), CFG % (6, 4), export=True)]


def directed(f):
    return [(f[i], f[(i + 1) % len(f)]) for i in range(len(f))]


def fans(faces, v):
    """A closed fan of faces at v is the only one."""
    out, back = {}, {}
    for f in faces:
        if v in f:
            k = f.index(v)
            out[f[(k + 1) % len(f)]] = f[k - 1]
    ends, n = set(out) - set(out.values()), 0
    for a in ends:
        while a in out:
            a = out.pop(a)
            n += 1
    seen = 0
    if out:
        a = b = next(iter(out))
        while True:
            a, seen = out[a], seen + 1
            if a == b:
                break
    return not out or (not n and seen == len(out))


def ordered(rng, faces):
    """A random order, contiguous or not."""
    rest, out = list(faces), []
    rng.shuffle(rest)
    contiguous = rng.random() < 0.5
    while rest:
        known = {e for f in out for e in directed(f)}
        f = next((f for f in rest if any((b, a) in known for a, b in directed(f))), rest[0]) if contiguous else rest[0]
        rest.remove(f)
        out.append(f)
    return out


def grid(rng, w, h, wrap, kind):
    """Grid of cells; wrapped in one or both directions (cylinder, torus)."""
    W, H = w if wrap[0] else w + 1, h if wrap[1] else h + 1
    n = lambda x, y: (y % H) * W + x % W
    faces = []
    for y in range(h):
        for x in range(w):
            a, b, c, d = n(x, y), n(x + 1, y), n(x + 1, y + 1), n(x, y + 1)
            k = rng.randrange(2) if kind == "mixed" else {"quad": 2, "main": 0, "anti": 1}[kind]
            faces += {0: [[a, b, c], [a, c, d]], 1: [[a, b, d], [b, c, d]], 2: [[a, b, c, d]]}[k]
    return faces


OCTAHEDRON = [[0, 1, 2], [0, 2, 3], [0, 3, 4], [0, 4, 1], [5, 2, 1], [5, 3, 2], [5, 4, 3], [5, 1, 4]]
TETRAHEDRON = [[0, 1, 2], [0, 2, 3], [0, 3, 1], [1, 3, 2]]
CUBE = [[0, 1, 2, 3], [7, 6, 5, 4], [0, 4, 5, 1], [1, 5, 6, 2], [2, 6, 7, 3], [3, 7, 4, 0]]


def surface(rng):
    k = rng.randrange(8)
    if k == 0:
        f = OCTAHEDRON
    elif k == 1:
        f = TETRAHEDRON
    elif k == 2:
        f = CUBE
    elif k == 3:
        f = grid(rng, 3, 3, (True, True), rng.choice(["quad", "main"]))
    elif k == 4:
        f = grid(rng, 3, rng.randrange(1, 3), (True, False), rng.choice(["quad", "main", "anti"]))
    elif k == 5:
        n = rng.randrange(3, 7)         # disk around a vertex, possibly open
        f = [[0, i + 1, (i + 1) % n + 1] for i in range(n)]
        f = f[:rng.randrange(1, n + 1)]
    else:
        f = grid(rng, rng.randrange(1, 4), rng.randrange(1, 4), (False, False), rng.choice(["quad", "main", "anti", "mixed"]))
    f = [list(x) for x in f]
    if rng.random() < 0.3:              # leave out some faces
        f = [x for x in f if rng.random() < 0.8] or f[:1]
        used = {v for x in f for v in x}
        assert all(fans(f, v) for v in used)
    return f


def history(rng, faces, queries=0.3, order=None):
    used = sorted({v for f in faces for v in f})
    ids = {v: v for v in used}
    mode = rng.randrange(3)
    if mode == 2:
        names = rng.sample(range(0, 60), len(used))
        ids = dict(zip(used, names))
    faces = [[ids[v] for v in f] for f in faces]
    for f in faces:
        k = rng.randrange(len(f))
        f[:] = f[k:] + f[:k]
    vs = sorted(ids.values())
    if mode:
        rng.shuffle(vs)
    ops = []
    for v in vs:
        if rng.random() < 0.03 and ops:
            ops.append({"op": "vertex", "id": ops[-1]["id"], "x": 0})
        ops.append({"op": "vertex", "id": v, "x": rng.randrange(0, 6)})
    if mode == 0 and vs == list(range(len(vs))):
        for o in ops:
            if len([p for p in ops if p["id"] == o["id"]]) == 1 and len(ops) == len(vs):
                o["id"] = -1
    elif rng.random() < 0.3:
        for _ in range(rng.randrange(1, 3)):
            ops.append({"op": "vertex", "id": -1, "x": rng.randrange(0, 6)})
    for f in faces:
        ops.append({"op": "face", "vs": f})
        if rng.random() < queries:
            ops.append({"op": "query"})
    ops.append({"op": "query"})
    return ops


def cases(rng, tier, exported):
    out = []
    ex = exported["MC_Mesh"]
    for f in rng.sample(ex, min(len(ex), 400 if tier == "quick" else 6000)):
        out.append({"ops": history(rng, [list(x) for x in f], 0.2)})
    for _ in range(250 if tier == "quick" else 2000):
        f = ordered(rng, surface(rng))
        if rng.random() < 0.2:
            g = ordered(rng, surface(rng))
            f = f + [[v + 30 for v in x] for x in g]
        if f:
            out.append({"ops": history(rng, f)})
    return out


CHECK = Check(
    "C29",
    [Part("meshes", "mesh.cc", "Trace_Mesh", cases, step=("StartMesh", "StepMesh"), units=(0, 1, 2, 3), limit=5)],
    MODELS,
    assumptions=["faces are oriented consistently and no vertex has further faces besides a closed fan of faces"],
    rule="all ways of adding triangles of the model plus random orders of adding the faces of disks, spheres, cylinders and tori")
