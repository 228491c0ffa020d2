from vlib import Check, Model, Part
import gen
import c06


def cases(rng, tier, exported):
    out = []
    for size, count in (("small", 500), ("medium", 160), ("large", 3)):
        for _ in range(count if tier == "quick" else count * 8):
            K = [tuple(s) for s in gen.any_complex(rng, size)]
            if rng.random() < 0.7:
                # moderate labels, so that vertex functions are indexable
                vs = sorted({v for s in K for v in s})
                new = rng.sample(range(len(vs) + 6), len(vs))
                m = dict(zip(vs, new))
                K = [tuple(m[v] for v in s) for s in K]
            big = max([v for s in K for v in s] + [0]) >= 200
            K.sort()
            rng.shuffle(K)
            f = [rng.randrange(-4, 5) for _ in range(1 if big else max(v for s in K for v in s) + 1)] if K else [0]
            mode = rng.randrange(3)
            if mode == 0 and not big:
                W = [max(f[v] for v in s) for s in K]          # monotone
            elif mode == 1:
                W = [len(s) * rng.choice([1, 2]) for s in K]
            else:
                W = [rng.randrange(-6, 7) for _ in K]
            p = list(range(1, len(K) + 1))
            rng.shuffle(p)
            for by in ("data", "greater") + (() if big else ("lower", "upper")):
                if size == "large" and by != "data" and rng.random() < 0.5:
                    continue
                if size == "small" and rng.random() < 0.3:
                    continue
                out.append({"k": "sort", "t": rng.choice(["du", "fs", "di"]), "scale": rng.choice([1, 2]), "by": by,
                            "f": f, "p": p, "items": [{"s": list(s), "w": w} for s, w in zip(K, W)]})
    return out


CHECK = Check(
    "C08",
    [Part("sorting", "complex.cc", "Trace_Sorting", cases, accept="AcceptSort", units=(0, 1, 2, 3))],
    c06.MODELS,
    rule="random complexes in random order with tied, monotone and arbitrary weights and vertex functions; each sorted "
         "from two different arrangements")
