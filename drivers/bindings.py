"""Replays cases through the Python interface: reads cases, writes one result
per line.  Every case runs in a child process of its own."""
import json
import math
import os
import resource
import signal
import sys
import traceback

import numpy as np
import aleph

BAD, INF = 2000000001, 2000000000
SCRATCH = os.environ["VERIF_SCRATCH"]
CELLS = 10


def num(x):
    x = float(x)
    if math.isnan(x):
        return BAD
    if math.isinf(x):
        return INF if x > 0 else -INF
    return int(x) if x == int(x) and abs(x) < 1000000000 else BAD


def near(x):
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return num(x)
    y = round(x)
    return y if abs(x - y) < 1e-6 * max(1.0, abs(x)) else BAD


def refused(f):
    try:
        f()
    except (IndexError, RuntimeError, ValueError, TypeError, StopIteration):
        return True
    return False


# ------------------------------------------------------------- sessions --

def items(K):
    return [{"s": [v for v in s], "w": num(s.data)} for s in K]


def complex_view(K, probes):
    dim = -1
    try:
        dim = K.dimension
    except (IndexError, RuntimeError):
        pass
    return {"items": items(K), "size": len(K), "bool": bool(K), "dim": dim,
            "index": [{"s": list(K[i]), "w": num(K[i].weight)} for i in range(len(K))],
            "has": [aleph.Simplex(p) in K for p in probes]}


def points(D):
    return [[num(p.x), num(p.y)] for p in D]


def diagram_view(D):
    a = np.array(D)
    return {"pts": points(D), "size": len(D), "bool": bool(D), "betti": D.betti, "dim": D.dimension,
            "array": [[num(x), num(y)] for x, y in a], "shape": list(a.shape),
            "unpaired": [p.unpaired for p in D], "pers": [num(p.persistence) for p in D]}


def function_view(f):
    return {"vals": [num(f(2 * c - 1)) for c in range(1, CELLS + 1)],
            "out": [num(f(-1)), num(f(-100))], "integral": near(f.integral), "max": num(f.max), "sup": num(f.sup)}


ORDERS = {"data": lambda s, t: (s.data, s.dimension, list(s)) < (t.data, t.dimension, list(t)),
          "greater": lambda s, t: (-s.data, s.dimension, list(s)) < (-t.data, t.dimension, list(t)),
          "lex": lambda s, t: list(s) < list(t)}
FUNCTORS = {"max": max, "min": min, "sum": lambda a, b: a + b}


def make(item):
    if item["form"] == "simplex":
        return aleph.Simplex(item["s"], item["w"])
    if item["form"] == "again":
        return aleph.Simplex(aleph.Simplex(item["s"]), item["w"])
    if item["form"] == "list":
        return list(item["s"])
    return (list(item["s"]), item["w"])


def graph_file(op):
    if op["kind"] == "gml":
        path = os.path.join(SCRATCH, "graph.gml")
        with open(path, "w") as f:
            f.write("graph [\n")
            for v, w in enumerate(op["f"]):
                f.write("  node [\n    id %d\n    weight %d\n  ]\n" % (v, w))
            for u, v in op["edges"]:
                f.write("  edge [\n    source %d\n    target %d\n  ]\n" % (u, v))
            f.write("]\n")
    else:
        path = os.path.join(SCRATCH, "graph.txt")
        with open(path, "w") as f:
            for (u, v), w in zip(op["edges"], op["weights"]):
                f.write("%d %d %d\n" % (u, v, w))
    return path


def session(c):
    K = [aleph.SimplicialComplex() for _ in range(2)]
    D = [aleph.PersistenceDiagram() for _ in range(2)]
    F = [aleph.StepFunction() for _ in range(2)]
    out = []
    for op in c["ops"]:
        r, s = op["r"] - 1, op.get("s", 1)
        s = s - 1 if isinstance(s, int) else 0
        res = {}
        o = op["op"]
        if o == "new":
            K[r] = aleph.SimplicialComplex([make(x) for x in op["items"]])
        elif o == "append":
            K[r].append(make(op["item"]))
        elif o == "sort":
            res["ret"] = items(K[r].sort())
        elif o == "sortby":
            res["ret"] = items(K[r].sort(ORDERS[op["by"]]))
        elif o == "expand":
            K[r] = aleph.RipsExpander()(K[s], op["d"])
        elif o == "maximum":
            K[r] = aleph.RipsExpander().assignMaximumWeight(K[s], 1)
        elif o == "load":
            path = graph_file(op)
            K[r] = aleph.load(path) if op["by"] == "none" else aleph.load(path, FUNCTORS[op["by"]])
        elif o == "diagrams":
            ds = aleph.calculatePersistenceDiagrams(K[s])
            res["dgms"] = [{"dim": d.dimension, "pts": points(d)} for d in ds]
            if op["i"] <= len(ds):
                D[r] = ds[op["i"] - 1]
        elif o == "zero":
            if op["u"] == INF:
                t = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(K[s])
            else:
                t = aleph.calculateZeroDimensionalPersistenceDiagramAndPairing(K[s], unpairedData=op["u"])
            D[r] = t[0]
            n = len(K[s])
            res["pairs"] = [[a, b if b < n else -1] for a, b in t[1]]
            res["parray"] = [[num(x), num(y) if y < n else -1] for x, y in np.array(t[1])]
            res["psize"], res["pbool"] = len(t[1]), bool(t[1])
        elif o == "points":
            path = os.path.join(SCRATCH, "diagram.txt")
            with open(path, "w") as f:
                for x, y in op["pts"]:
                    f.write("%d\t%s\n" % (x, "inf" if y == INF else str(y)))
            D[r] = aleph.load_persistence_diagram(path)
        elif o == "rdiag":
            D[r].removeDiagonal()
        elif o == "runp":
            D[r].removeUnpaired()
        elif o == "setdim":
            D[r].dimension = op["d"]
        elif o == "norms":
            N = aleph.norms
            res["norms"] = {"total": [num(N.totalPersistence(D[r], k)) for k in (1, 2, 3)],
                            "weighted": [num(N.totalPersistence(D[r], k=k, weighted=True)) for k in (1, 2, 3)],
                            "pnorm": [near(N.pNorm(D[r], k) ** k) for k in (1, 2, 3)],
                            "default": [num(N.totalPersistence(D[r])), near(N.pNorm(D[r]) ** 2)],
                            "inf": num(N.infinityNorm(D[r]))}
        elif o == "pif":
            F[r] = aleph.StepFunction(D[s]) if op["form"] == "class" else aleph.make_persistence_indicator_function(D[s])
        elif o == "add":
            F[r] = F[s] + F[op["u"] - 1]
        elif o == "sub":
            F[r] = F[s] - F[op["u"] - 1]
        elif o == "iadd":
            F[r] += F[s]
        elif o == "isub":
            F[r] -= F[s]
        elif o == "neg":
            F[r] = -F[s]
        elif o == "abs":
            F[r] = abs(F[r])
        elif o == "pow":
            F[r] = F[r].pow(op["p"])
        else:
            raise Exception("unknown operation " + o)
        res["K"] = [complex_view(k, c["probes"]) for k in K]
        res["D"] = [diagram_view(d) for d in D]
        res["F"] = [function_view(f) for f in F]
        res["eq"], res["ne"] = D[0] == D[1], D[0] != D[1]
        out.append(res)
    return out


# -------------------------------------------------------------- simplices --

def simplices(c):
    S = [aleph.Simplex(l, w) for l, w in zip(c["lists"], c["W"])]
    each = []
    for s in S:
        dim = -1
        try:
            dim = s.dimension
        except (IndexError, RuntimeError):
            pass
        t = aleph.Simplex(s, 99)
        u = aleph.Simplex(s, 0)
        u.weight = 98
        each.append({"v": list(s), "rev": list(reversed(s)), "pos": [s[i] for i in range(len(s))],
                     "refused": refused(lambda: s[len(s)]), "size": len(s), "empty": s.empty, "bool": bool(s),
                     "dim": dim, "w": num(s.data), "boundary": [list(b) for b in s.boundary],
                     "has": [p in s for p in c["probe"]], "reweighted": [num(t.data), num(u.data), t == s, u == s],
                     "copy": list(t)})
    return {"each": each, "rel": [[[s == t, s != t, s < t, True] for t in S] for s in S]}


# --------------------------------------------------------------- matrices --

def view(M, form, cols=None):
    """The same numbers in arrays of different layouts."""
    A = np.array(M, dtype=float)
    if A.ndim != 2:
        A = A.reshape(len(M), cols or 0)
    n, m = A.shape
    if form == "transposed":
        return np.ascontiguousarray(A.T).T
    if form == "strided":
        B = np.full((2 * n, 3 * m), -7.0)
        B[::2, ::3] = A
        return B[::2, ::3]
    if form == "columns":
        B = np.full((n, m + 2), 55.0)
        B[:, 1:m + 1] = A
        return B[:, 1:m + 1]
    if form == "reversed":
        return np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1]
    if form == "float32":
        return A.astype(np.float32)
    if form == "int":
        return A.astype(np.int64)
    return A


def dgms(ds, f=num):
    return [{"dim": d.dimension, "pts": [[f(p.x), f(p.y)] for p in d]} for d in ds]


def matrix(c):
    if c["k"] == "rips":
        M = view(c["D"], c["form"])
        before = M.copy()
        two = aleph.vietoris_rips_from_matrix_2d(M)
        out = {"dgms": dgms(aleph.vietoris_rips_from_matrix(M, max_dimension=c["d"]) if c["d"]
                            else aleph.vietoris_rips_from_matrix(M)),
               "tree": [list(e) for e in aleph.vietoris_rips_from_matrix_1d(M)],
               "tree2": [list(e) for e in two[0]], "cycles": [list(q) for q in two[1]]}
        out["same"] = bool((M == before).all())
        return out
    if c["k"] == "bipartite":
        M = view(c["D"], c["form"], c["cols"])
        args = {}
        if not c["defaults"]:
            args = {"reverseFiltration": c["reverse"], "vertexWeight": c["v"]}
        if c["u"] != INF:
            args["unpairedData"] = c["u"]
        d = aleph.calculateZeroDimensionalPersistenceDiagramOfMatrix(M, **args)
        return {"pts": points(d), "dim": d.dimension}
    if c["k"] == "cloud":
        P = view(c["P"], c["form"])
        if c["d"]:
            ds = aleph.calculatePersistenceDiagrams(P, epsilon=c["R"] / 2.0, dimension=c["d"])
        else:
            ds = aleph.calculatePersistenceDiagrams(P, c["R"] / 2.0)
        return {"dgms": dgms(ds, lambda x: near(x * x) if x < 1e9 else INF)}
    if c["k"] == "refused":
        A = np.zeros(c["shape"])
        if c["f"] == "cloud":
            return {"refused": refused(lambda: aleph.calculatePersistenceDiagrams(A, 1.0, 1))}
        if c["f"] == "float32":
            return {"refused": refused(lambda: aleph.calculatePersistenceDiagrams(A.astype(np.float32), 1.0, 1))}
        return {"refused": refused(lambda: getattr(aleph, c["f"])(A))}
    raise Exception("unknown kind " + c["k"])


def result(c):
    if "ops" in c:
        return session(c)
    if "lists" in c:
        return simplices(c)
    return matrix(c)


# ------------------------------------------------------------------- main --

def guarded(c):
    try:
        return {"out": result(c)}
    except Exception:
        return {"crash": traceback.format_exc()[-600:]}


def main(argv):
    with open(argv[1]) as f:
        cases = [json.loads(l) for l in f if l.strip()]
    limit = int(argv[3])
    batch, crashes, hangs = 25, 0, 0
    with open(argv[2], "w") as out:
        for b in range(0, len(cases), batch):
            part = cases[b:b + batch]
            answers, _ = isolated(part, limit)
            if answers is None or len(answers) < len(part):
                # some case ended the process: each one on its own
                answers = []
                for c in part:
                    a, hang = isolated([c], limit)
                    answers.append(a[0] if a else {"crash": "no answer within the time limit" if hang else "the interpreter ended"})
                    crashes += not a
                    hangs += hang
                    if crashes >= 25 or hangs >= 2:
                        break
            for k, a in enumerate(answers):
                a["id"] = b + k + 1
                out.write(json.dumps(a, separators=(",", ":")) + "\n")
            if crashes >= 25 or hangs >= 2:
                break
    return 0


def isolated(part, limit):
    """Results of some cases, calculated by a child process, or None if it
    ends early; and whether it took too long."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        signal.setitimer(signal.ITIMER_PROF, limit)
        signal.alarm(8 * limit)
        null = os.open("/dev/null", os.O_WRONLY)
        os.dup2(null, 1)
        with os.fdopen(w, "w") as f:
            f.write(json.dumps([guarded(c) for c in part]))
        os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    _, status = os.waitpid(pid, 0)
    if status != 0:
        return None, os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGPROF, signal.SIGALRM)
    try:
        return json.loads(text), False
    except ValueError:
        return None, False


if __name__ == "__main__":
    sys.exit(main(sys.argv))
