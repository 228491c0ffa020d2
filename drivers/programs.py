"""Runs the programs of the library in a directory of their own and records
what they print and write."""
import json
import math
import os
import re
import resource
import shutil
import string
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

BAD, INF = 2000000001, 2000000000
SCRATCH = os.environ["VERIF_SCRATCH"]
PROGRAMS = os.environ["PROGRAMS"]
CELLS = 40
LIMIT = 20
PREFIX = "aleph-"                # of all files, should a program ignore its options


class Failed(Exception):
    pass


def num(text, scale=1):
    """The number scale * text, if it is (almost) integral."""
    x = float(text)
    if math.isnan(x):
        return BAD
    if math.isinf(x) or abs(x) > 1e300:
        return INF if x > 0 else -INF
    y = round(x * scale)
    return y if abs(x * scale - y) < 1e-6 * max(1.0, abs(x * scale)) and abs(y) < INF else BAD


def near(text, scale):
    x = float(text)
    if math.isnan(x):
        return BAD
    if math.isinf(x) or abs(x * scale) >= INF:
        return INF if x > 0 else -INF
    return round(x * scale)


def whole(text, scale):
    """The same for numbers that have been printed with six digits."""
    x = float(text) * scale
    return near(text, scale) if not abs(x) < 1e6 or abs(x - round(x)) < 1e-2 else BAD


def value(x):
    return "inf" if x == INF else str(x)


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_CPU, (LIMIT, LIMIT + 1))
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def run(d, name, args, stdin=None):
    """Returns the exit code and what the program prints."""
    try:
        r = subprocess.run([os.path.join(PROGRAMS, name)] + [str(a) for a in args], cwd=d, preexec_fn=limits,
                           input=stdin if stdin is not None else "", stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=8 * LIMIT, errors="replace")
    except subprocess.TimeoutExpired:
        raise Failed("no answer within the time limit")
    return r.returncode, r.stdout


def read(d, name):
    with open(os.path.join(d, name), errors="replace") as f:
        return f.read()


def write(d, name, text):
    with open(os.path.join(d, name), "w") as f:
        f.write(text)


def lines(text):
    return [l for l in text.splitlines() if l.strip()]


def points(text):
    return [[num(x) for x in l.split()[:2]] for l in lines(text)]


# ------------------------------------------------------------ diagrams --

def filename(n):
    return PREFIX + n["b"] + ("_" + n["s"] + str(n["d"]) if n["s"] else "") + ".txt"


def steps(text, scale):
    """Values of a step function on cells, given by its intervals."""
    q = [[float(x) for x in l.split()] for l in lines(text)]
    out = [0.0] * CELLS
    for (a, y), (b, z) in zip(q[::2], q[1::2]):
        if y != z:
            return [BAD] * CELLS
        for c in range(CELLS):
            if a <= c + 0.5 <= b:
                out[c] += y
    return [near(x, scale) if scale > 1 else num(x) for x in out]


def put(d, op):
    f = op.get("form", 0)
    sep = ["\t", " ", "  "][f % 3]
    rows = [value(x) + sep + value(y) + ("" if f < 3 else " 7") for x, y in op["pts"]]
    if f % 2:
        rows = ["# a comment", ""] + rows
    write(d, filename(op["name"]), "".join(r + "\n" for r in rows))
    return {"rc": 0}


def graph(d, op):
    write(d, PREFIX + op["b"] + ".net-edges", "".join("%d %d %d\n" % (u, v, w) for (u, v), w in zip(op["edges"], op["weights"])))
    out = os.path.join(d, "out")
    os.mkdir(out)
    args = ["-o", "out" + op["slash"], "-f", op["inf"]] + (["-l"] if op["loops"] else []) + (["-z"] if op["zero"] else [])
    args += [PREFIX + op["b"] + ".net-edges"] + ([op["dim"]] if op["dim"] >= 0 else [])
    rc, _ = run(d, "graph_analysis", args)
    files = []
    for f in sorted(os.listdir(out)):
        m = re.fullmatch(re.escape(PREFIX + op["b"]) + r"_d(\d+)\.txt", f)
        files.append({"d": int(m.group(1)) if m else BAD, "pts": points(read(out, f))})
        os.replace(os.path.join(out, f), os.path.join(d, f))
    os.rmdir(out)
    return {"rc": rc, "files": sorted(files, key=lambda f: f["d"])}


def function(d, op):
    seps = [" ", ",", ";", ":", "\t", ", "]
    write(d, "values.txt", seps[op["form"]].join(str(x) for x in op["f"]) + "\n")
    args = ["-o", filename(op["name"])] + (["-S"] if op["super"] else ["-s"] if op["form"] % 2 else [])
    rc, _ = run(d, "function_analysis", args + ["values.txt"])
    return {"rc": rc, "pts": points(read(d, filename(op["name"])))}


def stat(d, op):
    names = {filename(n): n for n in op["files"]}
    args = ["-p", op["p"]] if op["p"] != 2 or op["form"] else []
    if op["invalid"] != -1:
        args += ["--invalid=" + str(op["invalid"])]
    rc, text = run(d, "persistence_diagram_statistics", args + [filename(n) for n in op["files"]])
    head, *rows = [l.split(",") for l in lines(text)] or [[]]
    want = ["file", "name", "dimension", "n_features", "power", "total_persistence", "total_persistence_normalized",
            "infinity_norm", "average_persistence"]
    c = {w: head.index(w) for w in want}
    return {"rc": rc, "rows": [
        {"file": names[r[c["file"]].strip("'")], "name": r[c["name"]][len(PREFIX):], "dim": num(r[c["dimension"]]),
         "n": num(r[c["n_features"]]), "power": num(r[c["power"]]), "total": num(r[c["total_persistence"]]),
         "normalised": near(r[c["total_persistence_normalized"]], 1000), "inf": num(r[c["infinity_norm"]]),
         "average": near(r[c["average_persistence"]], 1000)} for r in rows]}


def sign(d, op):
    args = (["-f", op["filter"]] if op["filter"] else []) + (["-k", op["keep"]] if op["keep"] else []) + (["-n"] if op["norm"] else [])
    rc, text = run(d, "make_signature", args + [filename(n) for n in op["files"]])
    return {"rc": rc, "rows": [[near(x, 1000) for x in l.split()] for l in text.split("\n")[:-1]]}


def pif(d, op):
    out = os.path.join(d, "out")
    os.mkdir(out)
    args = ["-o", "out" + op["slash"], "-p", op["prefix"]] + (["-m"] if op["mean"] else [])
    rc, _ = run(d, "persistence_indicator_function", args + [filename(n) for n in op["files"]])
    vals = [steps(read(out, op["prefix"] + filename(n)), 1) for n in op["files"]]
    res = {"rc": rc, "vals": vals, "mean": steps(read(out, op["prefix"] + "mean.txt"), 1000) if op["mean"] else []}
    shutil.rmtree(os.path.join(SCRATCH, d, "out"))
    return res


def merged(d, files):
    """The same diagrams in one JSON file per data set"""
    sets = {}
    for n in files:
        rows = [l.split() for l in lines(read(d, filename(n))) if not l.startswith("#")]
        q = [r[:2] for r in rows]
        sets.setdefault(PREFIX + n["b"] + ("" if n["s"] else "-plain") + ".json", []).append(
            {"betti": sum(r[1] == "inf" for r in q), "dimension": n["d"] if n["s"] else 0, "size": len(q), "diagram": q})
    for f, q in sets.items():
        write(d, f, json.dumps({"diagrams": q}))
    return list(sets)


def dist(d, op):
    flag = {"hausdorff": "-h" if op["form"] else None, "wasserstein": "-w", "indicator": "-i"}[op["by"]]
    args = ["-p", op["p"]] if op["p"] != 2 or op["form"] else []
    args += [flag] if flag else []
    for o, f in (("clean", "-c"), ("unique", "-r"), ("norm", "-n"), ("kernel", "-k")):
        args += [f] if op[o] else []
    if op["factor"]:
        args += ["-f", op["factor"]]
    files = merged(d, op["files"]) if op.get("json") else [filename(n) for n in op["files"]]
    if op["list"]:
        write(d, "list", "".join(f + "\n" for f in files))
        args, files = args + ["-l"], ["list"]
    rc, text = run(d, "topological_distance", args + files)
    return {"rc": rc, "rows": [[near(x, 100) for x in l.split()] for l in lines(text)]}


OPS = {"put": put, "graph": graph, "function": function, "stat": stat, "sign": sign, "pif": pif, "dist": dist}


def pipeline(d, case):
    return [OPS[op["k"]](d, op) for op in case["ops"]]


# ------------------------------------------- graphs and functions --

def gml(nodes, edges, label=None):
    out = ["graph [", "  directed 0"]
    for v in nodes:
        out += ["  node [", "    id %d" % v] + (['    label "%s"' % label(v)] if label else []) + ["  ]"]
    for e in edges:
        out += ["  edge [", "    source %d" % e[0], "    target %d" % e[1]]
        out += (["    weight %s" % e[2]] if len(e) > 2 else []) + ["  ]"]
    return "\n".join(out + ["]", ""])


def parse_gml(text, scale):
    nodes, edges = [], []
    for m in re.finditer(r"\b(node|edge)\s*\[([^\]]*)\]", text):
        kv = dict(re.findall(r'(\w+)\s+"?([^"\s]+)"?', m.group(2)))
        if m.group(1) == "node":
            nodes.append([num(kv["id"]), num(kv["label"][1:]) if "label" in kv else BAD])
        else:
            edges.append([num(kv["source"]), num(kv["target"]), near(kv["weight"], scale)])
    return {"nodes": nodes, "edges": edges}


def betti(d, c):
    for f in c["files"]:
        write(d, f["name"], gml(f["nodes"], f["edges"]))
    rc, text = run(d, "betti_numbers", [f["name"] for f in c["files"]])
    return {"rc": rc, "rows": [[num(x) for x in l.split()] for l in lines(text)]}


def collection(d, c):
    write(d, "T_A.txt", "".join("%d, %d\n" % (u, v) for e in c["edges"] for u, v in (e, e[::-1])))
    write(d, "T_graph_indicator.txt", "".join("%d\n" % g for g in c["ind"]))
    write(d, "T_graph_labels.txt", "".join("%d\n" % x for x in c["labels"]))
    write(d, "T_node_labels.txt", "".join("L%d\n" % x for x in c["names"]))
    out = os.path.join(d, "out")
    os.mkdir(out)
    args = ["-o", "out" + c["slash"], "-f", c["f"]] + (["-d", c["d"]] if c["d"] else [])
    args += {"sum": ["-s"], "super": ["-S"]}.get(c["by"], []) + (["-N"] if c["norm"] else []) + (["-c"] if c["close"] else [])
    args += ["-g", "-n"] if c["gml"] else []
    rc, _ = run(d, "sparse_adjacency_matrices", args + ["T_A.txt"])
    r = {"rc": rc, "files": [], "labels": [num(x) for x in lines(read(out, "Labels.txt"))], "close": {}, "gml": {}}
    for f in sorted(os.listdir(out)):
        m = re.fullmatch(r"(\d+)(_d(\d+)\.txt|_closeness_centrality\.txt|\.gml)", f)
        if not m:
            continue
        g = int(m.group(1)) + 1
        if m.group(3) is not None:
            r["files"].append({"g": g, "d": int(m.group(3)), "pts": [[near(x, 60) for x in l.split()] for l in lines(read(out, f))]})
        elif f.endswith(".gml"):
            r["gml"][g] = parse_gml(read(out, f), 60)
        else:
            r["close"][g] = [near(x, 1000) for x in lines(read(out, f))]
    for k in ("close", "gml"):
        r[k] = [r[k][g] for g in sorted(r[k])]
    return r


def connect(d, c):
    for f in c["files"]:
        write(d, f["name"], "".join(" ".join(str(x) if [i, j] not in f["gaps"] else "nan" for j, x in enumerate(row)) + "\n"
                                    for i, row in enumerate(f["m"])))
    args = (["-k"] if c["keep"] else []) + (["-i", c["inf"]] if c["inf"] != -1 else [])
    rc, text = run(d, "connectivity_matrix_analysis", args + [f["name"] for f in c["files"]])
    return {"rc": rc, "diagrams": [
        {"name": x["name"], "d": x["dimension"], "betti": x["betti"], "size": x["size"],
         "pts": [[num(a) for a in p] for p in x["diagram"]],
         "t1": num(x["total_persistence_1"]), "t2": num(x["total_persistence_2"])} for x in json.loads(text)["diagrams"]]}


LETTERS = string.ascii_letters


def cliques(d, c):
    if c["form"] == "gml":
        name, text = PREFIX + "g.gml", gml(c["nodes"], c["edges"], lambda v: LETTERS[v] if c.get("short") else "L%d" % (v + 100))
    else:
        name, text = PREFIX + "g.txt", "".join("%d %d %d\n" % tuple(e) for e in c["edges"])
    write(d, name, text)
    args = (["-l"] if c["labels"] else []) + (["-n"] if c["norm"] else []) + (["-i"] if c["inv"] else [])
    rc, text = run(d, "clique_communities_to_json", args + [name, c["t"] / 8.0, c["top"]])
    x = json.loads(text)
    (key, levels), = x.items()

    def vertex(v):
        if c["labels"] and c.get("short"):
            return LETTERS.index(v)
        return int(v[1:]) - 100 if c["labels"] else v

    return {"rc": rc, "t": num(key, 8), "levels": [
        {"size": int(k), "parts": [[[vertex(v) for v in s] for s in p] for p in levels[k]]} for k in sorted(levels, key=int)]}


def functions(d, c):
    names, at = [], 0
    for k, n in enumerate(c["split"]):
        names.append("f%d.txt" % k)
        write(d, names[-1], "".join(" ".join(str(x) for x in f) + "\n" for f in c["fs"][at:at + n]))
        at += n
    args = (["-S"] if c["super"] else []) + (["-c"] if c["cond"] else []) + (["-n"] if c["norm"] else [])
    rc, text = run(d, "function_analysis", args + ["-"] if c["stdin"] else args + names,
                   stdin=read(d, names[0]) if c["stdin"] else None)
    if c["cond"]:
        return {"rc": rc, "rows": [[near(x, 1000) for x in l.split()] for l in lines(text)]}
    blocks = [b for b in re.split(r"\n\s*\n", text) if b.strip()]
    scale = [27720 if c["norm"] and len(set(f)) > 1 else 1 for f in c["fs"]] + [1] * len(blocks)
    return {"rc": rc, "rows": [[[near(x, s) for x in l.split()] for l in lines(b)] for b, s in zip(blocks, scale)]}


def spectrum(d, c):
    text = "".join(("3000.%05d" % x if c.get("fine") else "%d" % x) + "\t%d\n" % y for x, y in zip(c["xs"], c["ys"]))
    write(d, "s.txt", "mass intensity\n" + text if c["head"] else text)
    args = (["-m", c["mode"]] if c["mode"] != "diagram" or c["head"] else []) + (["-n"] if c["norm"] else [])
    rc, text = run(d, "spectral_analysis", args + ["s.txt"])
    s = sum(c["ys"]) if c["norm"] else 1
    rows = [l.split() for l in lines(text)]
    if c["mode"] == "diagram":
        return {"rc": rc, "rows": [[num(x, s) for x in r] for r in rows]}
    return {"rc": rc, "rows": [[num((float(x) - 3000) * 1e5) if c.get("fine") else num(x), num(y, s)] for x, y in rows]}


# --------------------------------------------------------- point clouds --

def cloud(d, pts, form=0):
    sep = [" ", "\t", "  "][form % 3]
    write(d, "cloud.txt", "".join(sep.join(str(x) for x in p) + "\n" for p in pts))


def distribution(d, c):
    cloud(d, c["pts"], c["form"])
    args = ([["-d", c["metric"]], ["--distance=" + c["metric"]], []][c["form"] % 3 if c["metric"] == "euclidean" else c["form"] % 2])
    args += ["-e", c["R"] / 2.0] if c["R"] else []
    rc, text = run(d, "rips_distributions", args + ["cloud.txt"])
    x = json.loads(text)
    return {"rc": rc, "dist": [num(v) for v in x["distances"]], "deg": x.get("unweighted_degrees", []),
            "wdeg": [near(v, 100) for v in x.get("weighted_degrees", [])]}


def descriptor(d, c):
    cloud(d, [[x * v for v in c["v"]] for x in c["xs"]])
    args = ["-d", c["desc"], "-e", c["R"] / 2.0, "-k", c["n"], "-p", c["p"]]
    args += (["-D", c["top"]] if c["top"] else []) + (["-i"] if c["inv"] else []) + (["-n"] if c["norm"] else []) + (["-r"] if c["finite"] else [])
    rc, text = run(d, "point_cloud_data_descriptors", args + ["cloud.txt"])

    def val(t):
        return near(float(t) ** 2, c["scale"]) if c["p"] == 2 and c["desc"] == "eccentricity" and t != "inf" else whole(t, c["scale"])

    return {"rc": rc, "diagrams": [
        {"d": x["dimension"], "name": x["name"] == "cloud.txt", "size": x["size"], "betti": x["betti"],
         "pts": [[val(t) for t in p] for p in x["diagram"]]} for x in json.loads(text)["diagrams"]]}


def simplices(text):
    out = []
    for l in lines(text):
        m = re.fullmatch(r"\{([\d ]*?)(?: \((.*)\))?\}", l.strip())
        if m:
            out.append({"s": [int(v) for v in m.group(1).split()], "w": near(float(m.group(2) or 0) ** 2, 1000)})
        elif l.strip("-"):
            raise ValueError(l)
    return out


def spines(d, c):
    cloud(d, c["pts"])
    args = ["-r", c["R"] / 2.0] + {"": [], "fast": ["--spine=fast"], "short": ["-s", "fast"], "dumb": ["-s", "dumb"]}[c["method"]]
    rc, text = run(d, "persistent_spines", args + ["cloud.txt"])
    K, spine = re.findall(r"-{80}\n(.*?)-{80}\n", text, re.S)
    return {"rc": rc, "K": simplices(K), "spine": simplices(spine)}


def patches(d, c):
    cloud(d, [[10 ** x if not (x == 0 and z) else 0 for x, z in zip(q, zero)] for q, zero in zip(c["patches"], c["zeros"])])
    rc, text = run(d, "process_image_patches", ["cloud.txt"])
    return {"rc": rc, "rows": [[near(x, 100) for x in l.split()] for l in lines(text)]}


def dimensions(d, c):
    cloud(d, c["pts"])
    args = ["-m", c["method"], "-k", c["n"]] + (["-K", c["K"]] if c["K"] else [])
    rc, text = run(d, "local_dimensionality", args + ["cloud.txt"])
    r = {"rc": rc, "plain": [near(x, 1000) for x in lines(text)], "smooth": []}
    if c["smooth"]:
        rc, text = run(d, "local_dimensionality", args + ["-s"] + (["-n", c["times"]] if c["times"] != 1 else []) + ["cloud.txt"])
        r["rc"], r["smooth"] = r["rc"] or rc, [near(x, 1000) for x in lines(text)]
    return r


# ------------------------------------ triangulations and other inputs --

def triangulations(d, c):
    def text(k, q):
        form = c["form"][k]
        rows = [("[" + [",", ", ", " , "][form % 3].join(str(v) for v in s) + "]") for s in q]
        return "manifold_%d=%s[%s]%s" % (k, ["", "\n", " "][form % 3], [",", ", ", ",\n  "][form % 3].join(rows), "\n# comment\n\n" if form % 2 else "\n")

    write(d, "t.txt", "".join(text(k, q) for k, q in enumerate(c["tris"])))
    rc, out = run(d, "wicked_triangulations", ["t.txt"])
    x = json.loads(out)
    ordered = lambda y: [y[k] for k in sorted(y, key=int)]
    return {"rc": rc, "homology": ordered(x["homology"]),
            "intersection": [[{"p": p["perversity"], "betti": p["betti"]} for p in ordered(q)] for q in ordered(x["intersection_homology"])]}


def graphs(d, c):
    names = []
    for k, g in enumerate(c["graphs"]):
        names.append("g%d.txt" % k)
        if c["matrix"]:
            h = 1 + max(e[0] for e in g["edges"])
            w = {(u, v - h): x for u, v, x in g["edges"]}
            write(d, names[-1], "".join(" ".join(str(w[u, v]) for v in range(len(w) // h)) + "\n" for u in range(h)))
        else:
            write(d, names[-1], "".join("%d %d %d\n" % tuple(e) for e in g["edges"]))
    args = (["-b"] if c["matrix"] else []) + (["-f", c["by"]] if c["by"] != "standard" or c["form"] else []) + (["-r"] if c["rev"] else [])
    args += ["-w", c["weights"]] if c["weights"] != "global" or c["form"] else []
    args += {"": [], "diagram": ["-n"]}.get(c["norm"], ["-n" + c["norm"]])
    if c["default"]:
        args = ["-b", "-d"] if c["matrix"] else ["-d"]
    rc, text = run(d, "stratified_graph_analysis", args + (["-p"] if c["diagrams"] else []) + names)
    if c["diagrams"]:
        out, rows, blank = [], [], 0
        for l in text.split("\n")[:-1]:
            if l.strip():
                rows.append(l.split())
                continue
            blank += 1
            if blank % 2 == 0:   # two empty lines after every diagram
                out.append(rows)
                rows = []
        return {"rc": rc, "out": [[[whole(x, g["scale"]) for x in r] for r in q] for g, q in zip(c["graphs"], out)]}
    scale = 10 if c["norm"] == "standardize" else 100
    return {"rc": rc, "out": [[num(l.split()[0]), near(l.split()[1], scale)] for l in lines(text)]}


def entropies(d, c):
    for k, D in enumerate(c["Ds"]):
        write(d, "d%d.txt" % k, "".join("%d\t%d\n" % tuple(p) for p in D))
    rc, text = run(d, "persistence_diagram_entropies", ["d%d.txt" % k for k in range(len(c["Ds"]))])
    return {"rc": rc, "rows": [[near(x, 100000) for x in l.split()] for l in lines(text)]}


CALLS = {"betti": betti, "tu": collection, "connect": connect, "cliques": cliques, "functions": functions,
         "spectrum": spectrum, "distribution": distribution, "descriptor": descriptor, "spines": spines, "patches": patches,
         "dimensions": dimensions, "triangulations": triangulations, "graphs": graphs, "entropies": entropies}


def single(d, case):
    return CALLS[case["k"]](d, case)


# ---------------------------------------------------------------- cases --

def handle(k, case):
    d = os.path.join(SCRATCH, "case%d" % k)
    os.mkdir(d)
    try:
        return {"id": k, "out": (pipeline if "ops" in case else single)(d, case)}
    except Failed as e:
        return {"id": k, "crash": str(e)}
    except Exception as e:       # what a program prints or writes cannot be read
        return {"id": k, "crash": "unreadable output: %s: %s" % (type(e).__name__, e)}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main(argv):
    with open(argv[1]) as f:
        cases = [json.loads(l) for l in f if l.strip()]
    hangs, lock, stop = [0], threading.Lock(), threading.Event()

    def one(k):
        if stop.is_set():
            return None
        r = handle(k + 1, cases[k])
        if r.get("crash", "").startswith("no answer"):
            with lock:
                hangs[0] += 1
                if hangs[0] >= 2:
                    stop.set()
        return r

    with ThreadPoolExecutor(6) as pool:
        results = list(pool.map(one, range(len(cases))))
    with open(argv[2], "w") as out:
        for r in results:
            if r is None:
                break
            out.write(json.dumps(r, separators=(",", ":")) + "\n")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv))
