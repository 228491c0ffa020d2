"""Files of all formats: abstract content (validated by specs/Readers.tla) and
the text of the file, with the freedom the format leaves (white space,
comments, blank lines, notation of numbers) used at random."""

SCALE = 1000
NAN = 1999999999


def codes(s):
    return [ord(c) for c in s]


def num(rng, x, plain=False):
    """Text of the number x / 1000."""
    if x == NAN:
        return rng.choice(["nan", "NaN"])
    sign, a = ("-" if x < 0 else ""), abs(x)
    s = "%d.%03d" % (a // 1000, a % 1000)
    k = 0 if plain else rng.randrange(7)
    if k <= 2:
        s = s.rstrip("0").rstrip(".")
    elif k == 3 and a % 10 == 0:
        s = s[:-1]
    elif k == 4 and a:
        return "%s%de-3" % (sign, a)
    elif k == 5 and a:
        return rng.choice([sign + s + "e+0", sign + "%d.%04de+01" % (a // 10000, a % 10000), (sign or "+") + s])
    return sign + s


def weight(rng, positive=False):
    """Weights with few distinct values so that ties occur."""
    w = rng.choice([0, 1000, 2000, 500, 1250, 3000, 10000, 125, 7, rng.randrange(0, 20000)])
    return w if positive or rng.random() < 0.6 else -w


def name(rng, prefix="", digits=True):
    a = "abcdefgxyzABCXYZ"
    return prefix + rng.choice(a) + "".join(rng.choice(a + ("0123456789" if digits else "")) for _ in range(rng.randrange(3)))


def names(rng, n, **kw):
    s = []
    while len(s) < n:
        x = name(rng, **kw)
        if x not in s:
            s.append(x)
    return s


def label(rng):
    return " ".join(name(rng) for _ in range(rng.randrange(1, 3)))


def graph(rng, n, m, repeated=0.1):
    """m pairs of different vertices from 0..n-1; few of them repeated."""
    pairs = [(i, j) for i in range(n) for j in range(n) if i < j]
    rng.shuffle(pairs)
    pairs = pairs[:m]
    if pairs and rng.random() < repeated:
        pairs.append(rng.choice(pairs))
    return [p if rng.random() < 0.6 else (p[1], p[0]) for p in pairs]


def finish(rng, lines):
    """The last line may or may not end with a line break."""
    return "\n".join(lines) + ("\n" if rng.random() < 0.8 else "")


def decorated(rng, rows, comments, p=0.35, blank=True):
    """Rows with comments and blank lines in between."""
    out = []
    for r in rows:
        while rng.random() < p * 0.4:
            if blank and rng.random() < 0.5 or not comments:
                if blank:
                    out.append("")
            else:
                out.append(rng.choice(comments) + rng.choice([" comment", "1 2 3", " 4", "", " [ ] = x"]))
        out.append(r)
    while rng.random() < p * 0.3:
        out.append("" if blank else rows[-1]) if blank else None
        if not blank:
            break
    return out


# ------------------------------------------------------------- edge lists --

def edge_list(rng, lines=None, size=7):
    numeric = rng.random() < 0.5
    sep = rng.choice(["[:space:]", "[:space:]", ",", ";", ":", "|"])
    trim = rng.random() < 0.8
    n = rng.randrange(2, size)
    ids = [str(x) for x in rng.sample(range(0, rng.choice([40, 40, 65000])), n)] if numeric else names(rng, n, prefix=rng.choice(["", "", "_", "n"]))
    weights = rng.random() < 0.8
    d = {"fmt": "edges", "weights": weights, "trim": trim, "sep": sep, "lines": []}
    rows = []
    if lines is None:
        lines = []
        for i, j in graph(rng, n, rng.randrange(0 if rng.random() < 0.1 else 1, 9)):
            lines.append({"k": "e", "u": codes(ids[i]), "v": codes(ids[j]), "hw": rng.random() < 0.7, "w": weight(rng)})
    for l in lines:
        while rng.random() < 0.15:
            d["lines"].append({"k": "c"} if rng.random() < 0.5 else {"k": "b"})
            rows.append(rng.choice(["# 1 2 3", "% x y", "\"a b\"", "* 1 2", "#", "*vertices 2"]) if d["lines"][-1]["k"] == "c" else
                        rng.choice(["", "  ", "\t"] if trim else [""]))
        d["lines"].append(l)
        t = ["".join(map(chr, l["u"])), "".join(map(chr, l["v"]))] + ([num(rng, l["w"])] if l["hw"] else [])
        if sep == "[:space:]":
            s = rng.choice([" ", "\t", "  ", " \t "]).join(t)
        else:
            s = sep.join(t)
        if trim:
            s = rng.choice(["", "", " ", "\t"]) + s + rng.choice(["", "", " ", "\r"])
        rows.append(s)
    d["files"] = [[rng.choice([".txt", ".edges", ""]), finish(rng, rows) if rows else ""]]
    return d


# --------------------------------------------------------------- matrices --

def matrix_text(rng, rows, comments=("#",)):
    sep = rng.choice([" ", "\t", "  "])
    lines = [rng.choice(["", "", " "]) + sep.join(num(rng, x) for x in r) + rng.choice(["", "", " "]) for r in rows]
    return finish(rng, decorated(rng, lines, comments))


def adjacency(rng, rows=None, size=7):
    if rows is None:
        n = rng.randrange(1, size)
        rows = [[0] * n for _ in range(n)]
        zeros = rng.choice([0, 0.3, 0.6])
        for i in range(n):
            for j in range(i, n):
                w = 0 if rng.random() < zeros or i == j and rng.random() < 0.7 else weight(rng, rng.random() < 0.4)
                rows[i][j] = rows[j][i] = w
    n = len(rows)
    d = {"fmt": "adjacency", "vw": rng.choice(["max", "min", "zero"]), "f": rng.choice(["id", "id", "flip", "range"]),
         "nozero": rng.random() < 0.5, "nonan": False}
    if n > 2 and rng.random() < 0.15:
        d["nonan"] = True
        for _ in range(2):
            i, j = rng.sample(range(n), 2)
            rows[i][j] = rows[j][i] = NAN
        rows[0][0] = 0
    d["rows"] = rows
    d["files"] = [[".txt", matrix_text(rng, rows)]]
    return d


def bipartite(rng, rows=None, size=5):
    if rows is None:
        h, w = rng.randrange(1, size), rng.randrange(1, size)
        rows = [[weight(rng) for _ in range(w)] for _ in range(h)]
    return {"fmt": "bipartite", "vw": rng.choice(["global", "min", "abs"]), "rows": rows,
            "files": [[".txt", matrix_text(rng, rows)]]}


def large(rng):
    """More cells than values of the vertex type (unsigned char)."""
    n = rng.randrange(17, 20)
    rows = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            rows[i][j] = rows[j][i] = weight(rng, True) + 1000
    if rng.random() < 0.5:
        return {"fmt": "adjacency", "vw": "min", "f": "id", "nozero": False, "nonan": False, "rows": rows,
                "files": [[".txt", matrix_text(rng, rows)]]}
    return {"fmt": "bipartite", "vw": "global", "rows": rows, "files": [[".txt", matrix_text(rng, rows)]]}


FUNCTORS = ["max", "max", "min", "sum"]


def matrix(rng, rows=None, size=5):
    if rows is None:
        h, w = rng.randrange(1, size), rng.randrange(1, size)
        rows = [[weight(rng) for _ in range(w)] for _ in range(h)]
    return {"fmt": "matrix", "tri": rng.random() < 0.6, "f": rng.choice(FUNCTORS), "deflt": rng.random() < 0.5, "rows": rows,
            "files": [[".txt", matrix_text(rng, rows)]]}


def hdf5(rng, size=5):
    h, w = rng.randrange(1, size), rng.randrange(1, size)
    return {"fmt": "hdf5", "hdf5": True, "f": rng.choice(FUNCTORS), "deflt": rng.random() < 0.5, "type": rng.choice(["double", "float"]),
            "group": rng.choice(["/", "/G"]), "set": rng.choice(["YField", "Field"]),
            "rows": [[weight(rng) for _ in range(w)] for _ in range(h)], "files": []}


def functions(rng, size=6):
    rows = [[weight(rng) for _ in range(rng.randrange(1, size))] for _ in range(rng.randrange(1, 5))]
    t = [rng.choice(["", " "]) + rng.choice([" ", "\t"]).join(num(rng, x) for x in r) + rng.choice(["", " "]) for r in rows]
    return {"fmt": "functions", "iter": rng.random() < 0.3, "f": rng.choice(FUNCTORS), "deflt": rng.random() < 0.5, "rows": rows, "files": [[".txt", finish(rng, t)]]}


def function(rng, size=9):
    row = [weight(rng) for _ in range(rng.randrange(1, size))]
    return {"fmt": "function", "rows": [row], "files": [[".txt", finish(rng, [rng.choice([" ", "\n"]).join(num(rng, x) for x in row)])]]}


# ------------------------------------------------------------ GML, GraphML --

def node_ids(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return [str(i) for i in range(n)]
    if k == 1:
        return [str(i) for i in rng.sample(range(0, rng.choice([130, 130, 65000])), n)]
    if k == 2:
        return [str(i) + x for i, x in zip(rng.sample(range(0, 30), n), (rng.choice("ab") for _ in range(n)))]
    return names(rng, n)


def network(rng, n=None, size=7, ids=None):
    n = rng.randrange(1, size) if n is None else n
    ids = ids or node_ids(rng, n)
    n = len(ids)
    order = list(range(n))
    if rng.random() < 0.5:
        rng.shuffle(order)
    pn, pe, pl = (rng.choice([0, 0.5, 1]) for _ in range(3))
    nodes = [{"id": codes(ids[i]), "hw": rng.random() < pn, "w": weight(rng), "hv": rng.random() < 0.3, "v": weight(rng),
              "label": codes(label(rng)) if rng.random() < pl else []} for i in order]
    edges = [{"s": codes(ids[i]), "t": codes(ids[j]), "hw": rng.random() < pe, "w": weight(rng), "hv": rng.random() < 0.3, "v": weight(rng)}
             for i, j in graph(rng, n, rng.randrange(0, 9))]
    return nodes, edges


def text(x):
    return "".join(map(chr, x))


def gml(rng, size=7):
    nodes, edges = network(rng, size=size, n=rng.randrange(11, 14) if rng.random() < 0.15 else None)
    out = []

    def block(kind, items, depth):
        ind = rng.choice(["  " * depth, "\t" * depth, ""])
        out.extend([ind + kind + " ["] if rng.random() < 0.6 else [ind + kind, ind + "["])
        for x in items:
            if rng.random() < 0.05:
                out.append("")
            out.append(ind + "  " + x)
        out.append(ind + "]")

    def attributes(x):
        a = ["%s %s" % (k, num(rng, x[v])) for k, h, v in (("weight", "hw", "w"), ("value", "hv", "v")) if x[h]]
        if rng.random() < 0.2:
            a.append(rng.choice(["kind x1", "data -3.5", "graphics_width 3", "name \"q r\""]))
        return a

    if rng.random() < 0.4:
        out.append(rng.choice(["Creator \"someone on Sunday\"", "comment \"nothing [ ]\"", ""]))
    g = ["graph ["] if rng.random() < 0.5 else ["graph", "["]
    out += g
    if rng.random() < 0.6:
        out.append("  directed 0")
    if rng.random() < 0.2:
        out.append("  comment \"edge [\"")
    items = [("node", x) for x in nodes] + [("edge", x) for x in edges]
    if rng.random() < 0.2:
        rng.shuffle(items)
    for kind, x in items:
        if kind == "node":
            a = ["id " + text(x["id"])] + (["label \"%s\"" % text(x["label"])] if x["label"] else []) + attributes(x)
        else:
            a = ["source " + text(x["s"]), "target " + text(x["t"])] + attributes(x)
        if rng.random() < 0.3:
            rng.shuffle(a)
        block(kind, a, 1)
        if rng.random() < 0.1:
            out.append("")
    out.append("]")
    if rng.random() < 0.2:
        out.append("")
    return {"fmt": "gml", "f": rng.choice(FUNCTORS), "deflt": rng.random() < 0.5, "nodes": nodes, "edges": edges,
            "files": [[".gml", finish(rng, out)]]}


def graphml(rng, size=7):
    nodes, edges = network(rng, size=size, ids=None)
    nodew, edgew = rng.random() < 0.7, rng.random() < 0.6
    if nodew and not edgew:
        for x in nodes:
            x["hw"] = True
    na, ea = rng.choice(["weight", "mass"]), rng.choice(["weight", "length"])
    keys = [("node", na, "d0"), ("edge", ea, "d1"), ("node", "label", "d2"), ("edge", "other", "d3")]
    if rng.random() < 0.5:
        keys = [(a, b, "k%d" % i) for i, (a, b, _) in enumerate(keys)]
        if rng.random() < 0.5:
            keys.reverse()
    kid = {(a, b): c for a, b, c in keys}
    head = ["<?xml version=\"1.0\" encoding=\"UTF-8\"?>"] if rng.random() < 0.75 else []
    if rng.random() < 0.2:
        head.append("<!-- a graph -->")
    out = head + ["<graphml xmlns=\"http://graphml.graphdrawing.org/xmlns\">"]
    for a, b, c in keys:
        out.append("<key id=\"%s\" for=\"%s\" attr.name=\"%s\" attr.type=\"double\"/>" % (c, a, b))
    out.append("<graph id=\"G\" edgedefault=\"%s\">" % rng.choice(["undirected", "directed"]))
    body = []
    for x in nodes:
        t = "<node id=\"%s\">" % text(x["id"])
        if x["label"]:
            t += "<data key=\"%s\">%s</data>" % (kid["node", "label"], text(x["label"]))
        if x["hw"]:
            t += "\n  <data key=\"%s\">%s</data>" % (kid["node", na], num(rng, x["w"]))
        body.append(t + "</node>")
    for i, x in enumerate(edges):
        t = "<edge id=\"e%d\" source=\"%s\" target=\"%s\">" % (i, text(x["s"]), text(x["t"]))
        if x["hv"]:
            t += "<data key=\"%s\">%s</data>" % (kid["edge", "other"], num(rng, x["v"]))
        if x["hw"]:
            t += "<data key=\"%s\">%s</data>" % (kid["edge", ea], num(rng, x["w"]))
        body.append(t + "</edge>")
    if rng.random() < 0.2:
        rng.shuffle(body)
    out += body + ["</graph>", "</graphml>"]
    return {"fmt": "graphml", "f": rng.choice(FUNCTORS), "deflt": rng.random() < 0.5, "nodew": nodew, "edgew": edgew,
            "nodea": na, "edgea": ea, "nodes": nodes, "edges": edges, "files": [[".graphml", finish(rng, out)]]}


# ------------------------------------------------------------------ Pajek --

def pajek(rng, size=7):
    n = rng.randrange(10, 13) if rng.random() < 0.15 else rng.randrange(1, size)
    labelled = rng.random() < 0.6
    ids = [str(i + 1) for i in range(n)]
    if labelled and rng.random() < 0.2:
        ids = [str(i) for i in rng.sample(range(1, 60), n)]
    order = list(range(n))
    if rng.random() < 0.3:
        rng.shuffle(order)
    nodes = [{"id": codes(ids[i]), "label": codes(label(rng)) if rng.random() < 0.9 else []} for i in order] if labelled else []
    edges = [{"s": codes(ids[i]), "t": codes(ids[j]), "hw": rng.random() < 0.7, "w": weight(rng)}
             for i, j in graph(rng, n, rng.randrange(0, 9))]
    sp = lambda: rng.choice([" ", "  ", "\t"])
    rows = [rng.choice(["*Vertices", "*vertices", "*VERTICES"]) + sp() + str(n)]
    for x in nodes:
        rows.append(text(x["id"]) + sp() + "\"%s\"" % text(x["label"]))
    cut = rng.randrange(len(edges) + 1) if edges and rng.random() < 0.3 else len(edges)
    for part, kw in ((edges[:cut], ["*Edges", "*edges", "*arcs"]), (edges[cut:], ["*Arcs", "*edges"])):
        if part or rng.random() < 0.3:
            rows.append(rng.choice(kw))
            for x in part:
                rows.append(text(x["s"]) + sp() + text(x["t"]) + (sp() + num(rng, x["w"]) if x["hw"] else ""))
    rows = [rng.choice(["", "", " "]) + r + rng.choice(["", "", " ", "\r"]) for r in rows]
    return {"fmt": "pajek", "n": n, "nodes": nodes, "edges": edges,
            "files": [[".net", finish(rng, decorated(rng, rows, ["%"]))]]}


# --------------------------------------------------------- triangulations --

def lex(rng, size=7):
    blocks, rows = [], []
    for b in range(rng.randrange(1, 4)):
        sx = set()
        for _ in range(rng.randrange(1, 7)):
            sx.add(tuple(sorted(rng.sample(range(1, 15), rng.randrange(1, 5)))))
        sx = [list(s) for s in sx]
        rng.shuffle(sx)
        for s in sx:
            rng.shuffle(s)
        blocks.append(sx)
        ws = lambda: rng.choice(["", "", "", " "])
        t = "manifold_%d=" % b + ws()
        if rng.random() < 0.1:
            t += "\n"
        t += "[" + ws()
        for i, s in enumerate(sx):
            t += ("," if i else "") + ws() + ("\n  " if rng.random() < 0.2 else "")
            t += "[" + ("," + ws() + ("\n" if rng.random() < 0.05 else "")).join(str(v) for v in s) + "]" + ws()
        t += "]"
        if rng.random() < 0.3:
            rows.append("# comment [1,2] = x")
        rows.append(t)
        if rng.random() < 0.4:
            rows.append("")
    return {"fmt": "lex", "blocks": blocks, "files": [[".txt", finish(rng, rows)]]}


# --------------------------------------------------------------- PLY, VTK --

def ply(rng, size=7):
    n = rng.randrange(3, size)
    props = ["x", "y", "z"]
    extra = rng.sample(["quality", "nx", "red"], rng.randrange(3))
    props = props + extra
    if rng.random() < 0.4:
        rng.shuffle(props)
    verts = [[weight(rng) for _ in props] for _ in range(n)]
    tri = [t for t in ((i, j, k) for i in range(n) for j in range(i) for k in range(j))]
    faces = [list(t) for t in rng.sample(tri, min(len(tri), rng.randrange(1, 6)))]
    for f in faces:
        rng.shuffle(f)
    rows = ["ply", "format ascii 1.0"]
    h = ["element vertex %d" % n] + ["property %s %s" % (rng.choice(["float", "double", "int"]), p) for p in props]
    h += ["element face %d" % len(faces), "property list uchar int vertex_indices"]
    for x in h:
        if rng.random() < 0.15:
            rows.append("comment property float z")
        rows.append(x)
    rows.append("end_header")
    sp = rng.choice([" ", "  "])
    rows += [sp.join(num(rng, x) for x in v) for v in verts]
    rows += ["3 " + sp.join(map(str, f)) for f in faces]
    return {"fmt": "ply", "props": props, "prop": rng.choice(["z", "z", "x"] + extra + ["", "missing"]), "verts": verts, "faces": faces,
            "files": [[".ply", finish(rng, rows)]]}


def vtk(rng, size=4):
    dims = [rng.randrange(1, size), rng.randrange(1, size), rng.choice([1, 1, rng.randrange(1, 4)])]
    rng.shuffle(dims)
    n = dims[0] * dims[1] * dims[2]
    vals = [weight(rng) for _ in range(n)]
    nm, ty = rng.choice(["ImageFile", "density", "f1"]), rng.choice(["float", "double", "int"])

    def flow(xs, group):
        k = rng.choice([group, group * 3, len(xs)])
        return [rng.choice([" ", "  "]).join(num(rng, x) for x in xs[i:i + k]) + rng.choice(["", " "]) for i in range(0, len(xs), k)]
    rows = ["# vtk DataFile Version 3.0", "some title", "ASCII", "DATASET STRUCTURED_GRID",
            "DIMENSIONS %d %d %d" % tuple(dims), "POINTS %d float" % n]
    pts = [1000 * c for z in range(dims[2]) for y in range(dims[1]) for x in range(dims[0]) for c in (x, y, z)]
    rows += flow(pts, 3)
    if rng.random() < 0.5:
        rows.append("")
    tail = lambda s: s + rng.choice(["", "", " "])
    rows.append(tail("POINT_DATA %d" % n))
    rows.append(tail("SCALARS %s %s" % (nm, ty) + rng.choice(["", " 1"])))
    rows.append(tail("LOOKUP_TABLE default"))
    rows += flow(vals, rng.choice([1, 2, 5]))
    if rng.random() < 0.2:
        rows.append("")
    return {"fmt": "vtk", "dims": dims, "vals": vals, "name": nm, "type": ty, "f": rng.choice(FUNCTORS), "deflt": rng.random() < 0.5,
            "files": [[".vtk", finish(rng, rows)]]}


# ---------------------------------------------------------------- spectra --

def spectrum(rng, size=8):
    n = rng.randrange(2, size)
    normalize = rng.random() < 0.4
    xs = sorted(rng.sample(range(0, 200000), n))
    ys = [weight(rng, True) for _ in range(n)]
    if normalize:
        total = rng.choice([8, 10, 40, 100])
        cuts = sorted(rng.randrange(total + 1) for _ in range(n - 1))
        ys = [1000 * (b - a) for a, b in zip([0] + cuts, cuts + [total])]
    rows = [num(rng, x, True) + rng.choice([" ", "\t"]) + num(rng, y, True) for x, y in zip(xs, ys)]
    rows = decorated(rng, rows, ["#", "!", "mass"])
    return {"fmt": "spectrum", "normalize": normalize, "entries": [[x, y] for x, y in zip(xs, ys)], "files": [[".txt", finish(rng, rows)]]}


# ------------------------------------------------- sparse adjacency lists --

def sparse(rng, size=9):
    n = rng.randrange(2, size)
    k = rng.randrange(1, 4)
    ids = sorted(rng.sample(range(1, 9), k)) if rng.random() < 0.3 else list(range(1, k + 1))
    g = [rng.choice(ids) for _ in range(n)]
    if rng.random() < 0.6:
        g.sort()
    edges = [[i + 1, j + 1] for i, j in graph(rng, n, 30, 0) if g[i] == g[j] and rng.random() < 0.5]
    if not edges:
        g[1] = g[0]
        edges = [[1, 2]]
    both = rng.random() < 0.5
    na, ea = rng.choice([0, 0, 1, 2]), rng.choice([0, 0, 1, 2])
    nattr = [[weight(rng) for _ in range(2)] for _ in range(n)]
    eattr = [[weight(rng) for _ in range(2)] for _ in edges]
    if both:
        edges, eattr = edges + [[b, a] for a, b in edges], eattr + eattr
    order = list(range(len(edges)))
    rng.shuffle(order)
    edges, eattr = [edges[i] for i in order], [eattr[i] for i in order]
    glabels = [rng.choice(["1", "-1", "0", "class a", "7"]) for _ in sorted(set(g))]
    nlabels = [rng.choice(["1", "2", "A"]) for _ in range(n)] if rng.random() < 0.6 else []
    sp = rng.choice(["", " "])
    d = {"fmt": "sparse", "graph": g, "edges": edges, "nattr": nattr, "eattr": eattr, "na": na, "ea": ea,
         "rgl": rng.random() < 0.8, "rnl": rng.random() < 0.5, "glabels": [codes(x) for x in glabels], "nlabels": [codes(x) for x in nlabels]}
    d["files"] = [["_A.txt", finish(rng, ["%d,%s%d" % (a, sp, b) for a, b in edges])],
                  ["_graph_indicator.txt", finish(rng, [str(x) for x in g])],
                  ["_graph_labels.txt", finish(rng, glabels)]]
    if nlabels:
        d["files"].append(["_node_labels.txt", finish(rng, [x + rng.choice(["", " "]) for x in nlabels])])
    if na:
        d["files"].append(["_node_attributes.txt", finish(rng, [("," + sp).join(num(rng, x) for x in r) for r in nattr])])
    if ea:
        d["files"].append(["_edge_attributes.txt", finish(rng, [("," + sp).join(num(rng, x) for x in r) for r in eattr])])
    return d


# ---------------------------------------------------------------- generic --

def generic(rng, size=7):
    d = rng.choice([gml, pajek, ply, vtk, hdf5, edge_list])(rng)
    as_ = d["fmt"]
    d.update(fmt="generic")
    d["as"] = as_
    d["deflt"] = rng.random() < 0.5
    if as_ == "edges":
        while d["sep"] != "[:space:]" or not d["trim"] or not d["weights"]:
            e = edge_list(rng)
            d.update({k: e[k] for k in ("weights", "trim", "sep", "lines", "files")})
        if rng.random() < 0.3:
            d["files"][0][0] = ".dat"
    if as_ == "hdf5":
        d.update(group="/", set="YField")
    if as_ == "ply":
        # The empty attribute selects the default one.
        d["prop"] = rng.choice([p for p in d["props"] if p not in ("x", "y")])
    if "f" not in d or as_ == "edges" or as_ == "pajek" or as_ == "ply":
        d["f"] = "max"
    return d


FORMATS = [edge_list, adjacency, bipartite, matrix, gml, graphml, pajek, lex, function, functions, ply, vtk, spectrum, sparse, hdf5, generic]


def sometimes_missing(rng, d, p):
    """There is no such file with probability p."""
    return dict(d, missing=True) if not d.get("iter") and rng.random() < p else d


LIBS = ("-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5", "-ltinyxml2")
FLAGS = ("-I/usr/include/hdf5/serial",)


def descriptions(rng, rows):
    """The graph given by a matrix of weights in all formats for graphs."""
    n = len(rows)
    edges = [(i, j) for i in range(n) for j in range(i + 1, n) if rows[i][j]]
    lines = [{"k": "e", "u": codes(str(i)), "v": codes(str(j)), "hw": True, "w": rows[i][j]} for i, j in edges]
    out = [edge_list(rng, lines)] if lines else []
    out += [adjacency(rng, [list(r) for r in rows]), bipartite(rng, rows), matrix(rng, rows)]
    return out
