"""Shared machinery of all checks: compile drivers against /repo, run TLC
models, replay cases through the library, validate the recorded events with
TLC, write evidence, report violations."""

import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPECS = os.path.join(VERIF, "specs")
CPUS = max(1, min(8, os.cpu_count() or 1))
CLASSPATH = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class CheckError(Exception):
    """The check could not decide (never reported as a violation)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- drivers --

def include_hash(more=()):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(VERIF, "harness")] + [os.path.join(REPO, m) for m in more]
    for root in roots:
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h


LOCKS, LOCKS_LOCK = {}, threading.Lock()
CXXFLAGS = ["-std=gnu++11", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-include", "functional", "-pthread"]


def compile_driver(source, extra=(), flags=()):
    """Builds a driver from the working tree; returns the binary's path.

    Binaries are kept by the hash of everything they are made from, so an
    unchanged tree is not compiled twice."""
    if source.endswith(".py"):
        return compile_programs(source, extra, flags) if flags else compile_module(source)
    src = os.path.join(VERIF, "drivers", source)
    with open(src, "rb") as f:
        text = f.read()
    h = include_hash()
    h.update(text)
    h.update(repr((source, tuple(extra), tuple(flags), CXXFLAGS)).encode())
    for name in sorted(os.listdir(os.path.join(VERIF, "drivers"))):
        if name.endswith(".hh"):
            with open(os.path.join(VERIF, "drivers", name), "rb") as f:
                h.update(f.read())
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, os.path.splitext(source)[0] + "-" + h.hexdigest()[:24])
    with LOCKS_LOCK:
        lock = LOCKS.setdefault(out, threading.Lock())
    with lock:
        if not os.path.exists(out):
            build_driver(source, src, out, extra, flags)
    return out


def compile_module(source):
    """Builds the Python module from the working tree; returns a command that
    runs the driver with it."""
    h = include_hash(["bindings"])
    cache = os.path.join(VERIF, ".cache")
    os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, "module-" + h.hexdigest()[:24])
    with LOCKS_LOCK:
        lock = LOCKS.setdefault(out, threading.Lock())
    with lock:
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            os.makedirs(os.path.join(tmp, "aleph"))
            bindings = os.path.join(REPO, "bindings", "python")
            with open(os.path.join(tmp, "aleph", "__init__.py"), "w") as f:
                f.write("from .aleph import *\n")
            cmd = (["g++"] + CXXFLAGS + ["-O0", "-fPIC", "-shared", "-fvisibility=hidden",
                    "-isystem", sysconfig_include(), "-isystem", "/usr/include/hdf5/serial",
                    "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "harness", "config"),
                    "-isystem", "/usr/include/eigen3", os.path.join(bindings, "aleph.cc"),
                    "-o", os.path.join(tmp, "aleph", "aleph.so"), "-lflann", "-llz4",
                    "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5_cpp", "-lhdf5", "-ltinyxml2"])
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise CheckError("the Python module does not compile:\n%s" % r.stdout[-4000:])
            publish(tmp, out)
        name = os.path.splitext(source)[0] + ".sh"
        script = os.path.join(out, name)
        if not os.path.exists(script):
            with open("%s.%d.tmp" % (script, os.getpid()), "w") as f:
                f.write('#!/bin/sh\nd="$(dirname "$0")"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d" '
                        'exec /usr/bin/python3 "$d/../../drivers/%s" "$@"\n' % source)
            os.chmod("%s.%d.tmp" % (script, os.getpid()), 0o755)
            os.rename("%s.%d.tmp" % (script, os.getpid()), script)
    return script


def compile_programs(source, extra, names):
    """Builds programs of the working tree; returns a command that runs the
    driver with them."""
    h = include_hash()
    h.update(repr((tuple(extra), tuple(names), CXXFLAGS)).encode())
    for name in names:
        with open(os.path.join(REPO, "src", "tools", name + ".cc"), "rb") as f:
            h.update(f.read())
    out = os.path.join(VERIF, ".cache", "programs-" + h.hexdigest()[:24])
    with LOCKS_LOCK:
        lock = LOCKS.setdefault(out, threading.Lock())
    with lock:
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            os.makedirs(tmp, exist_ok=True)

            def build(name):
                cmd = (["g++"] + CXXFLAGS + ["-I", os.path.join(REPO, "src", "tools"), "-I", os.path.join(REPO, "include"),
                        "-I", os.path.join(VERIF, "harness", "config"), "-isystem", "/usr/include/eigen3",
                        "-isystem", "/usr/include/hdf5/serial", os.path.join(REPO, "src", "tools", name + ".cc"),
                        "-o", os.path.join(tmp, name)] + list(extra))
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise CheckError("program %s does not compile:\n%s" % (name, r.stdout[-4000:]))

            with cf.ThreadPoolExecutor(CPUS) as pool:
                list(pool.map(build, names))
            publish(tmp, out)
        script = os.path.join(out, os.path.splitext(source)[0] + ".sh")
        if not os.path.exists(script):
            with open("%s.%d.tmp" % (script, os.getpid()), "w") as f:
                f.write('#!/bin/sh\nd="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PROGRAMS="$d" '
                        'exec /usr/bin/python3 "$d/../../drivers/%s" "$@"\n' % source)
            os.chmod("%s.%d.tmp" % (script, os.getpid()), 0o755)
            os.rename("%s.%d.tmp" % (script, os.getpid()), script)
    return script


def sysconfig_include():
    r = subprocess.run(["/usr/bin/python3", "-c", "import sysconfig; print(sysconfig.get_paths()['include'])"],
                       stdout=subprocess.PIPE, text=True)
    return r.stdout.strip()


def publish(tmp, out):
    """Moves a finished build into place; another process may have been faster."""
    try:
        os.rename(tmp, out)
    except OSError:
        if not os.path.isdir(out):
            raise
        shutil.rmtree(tmp)


def build_driver(source, src, out, extra, flags):
    tmp = "%s.%d.tmp" % (out, os.getpid())
    cmd = (["g++"] + CXXFLAGS + list(flags)
           + ["-I", os.path.join(VERIF, "harness"), "-I", os.path.join(VERIF, "drivers"),
              "-I", os.path.join(REPO, "include"),
              "-I", os.path.join(VERIF, "harness", "config"),
              "-isystem", "/usr/include/eigen3",
              "-o", tmp, src] + list(extra))
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("driver %s does not compile:\n%s" % (source, r.stdout[-4000:]))
    publish(tmp, out)


def run_driver(binary, cases, work, name, limit=20, timeout=700):
    cin = os.path.join(work, name + ".cases.ndjson")
    out = os.path.join(work, name + ".events.ndjson")
    with open(cin, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    scratch = os.path.join(work, name + ".scratch")
    os.makedirs(scratch, exist_ok=True)
    env = dict(os.environ, VERIF_SCRATCH=scratch, OMP_NUM_THREADS="1", LC_ALL="C")
    try:
        r = subprocess.run([binary, cin, out, str(limit)], cwd=scratch, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("driver %s timed out" % name)
    if r.returncode != 0:
        raise CheckError("driver %s failed (%d): %s" % (name, r.returncode, r.stderr[-2000:]))
    merge(out, cases)
    return out


def readable(x):
    if isinstance(x, list):
        return all(readable(v) for v in x)
    if isinstance(x, dict):
        return all(readable(v) for v in x.values())
    return x is not None


def merge(path, cases):
    """Adds the cases to the recorded results."""
    with open(path, "rb") as f:
        lines = f.read().decode("latin-1").splitlines()
    events = []
    for k, l in enumerate(lines[:len(cases)], 1):
        e = {"id": k, "in": cases[k - 1]}
        try:
            r = json.loads(l)
            if r["id"] != k or not readable(r):
                raise ValueError
            e.update((x, r[x]) for x in ("out", "crash") if x in r)
        except (ValueError, KeyError, TypeError):
            e["crash"] = "unreadable result"
        events.append(json.dumps(e, separators=(",", ":")) + "\n")
    with open(path, "w") as f:
        f.writelines(events)


# -------------------------------------------------------------------- TLC --

def tlc(module, cfg_text, work, name, env=None, workers=CPUS, heap="4g", timeout=800, extra=()):
    """Runs TLC; returns (exit code, output)."""
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, name + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:-UsePerfData",
           "-Djava.io.tmpdir=" + d, "-DTLA-Library=" + SPECS,
           "-cp", CLASSPATH, "tlc2.TLC", "-workers", str(workers), "-nowarning", "-noGenerateSpecTE",
           "-metadir", os.path.join(d, "states"), "-config", cfg] + list(extra) + [
           os.path.join(SPECS, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC timed out on %s" % module)
    out = "\n".join(l for l in r.stdout.splitlines()
                    if not l.startswith(("Parsing file", "Semantic processing", "Linting of")))
    return r.returncode, out


def tlc_stats(out):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


class Model:
    """An exhaustive (or bounded) model-checking run of a specification."""

    def __init__(self, module, quick, thorough=None, export=False, workers=None, heap="3g"):
        self.module, self.quick, self.thorough = module, quick, thorough or quick
        self.export, self.workers, self.heap = export, workers, heap

    def run(self, tier, work, seed):
        name = "model-" + self.module
        env = {"SEED": str(seed)}
        exported = os.path.join(work, name + ".export")
        env["EXPORT"] = exported
        open(exported, "w").close()
        cfg = self.thorough if tier == "thorough" else self.quick
        workers = self.workers or (1 if self.export else max(1, CPUS // 2))
        rc, out = tlc(self.module, cfg, work, name, env=env, workers=workers, heap=self.heap)
        if rc != 0:
            raise CheckError("model %s is not satisfied or not evaluable (TLC exit %d):\n%s"
                             % (self.module, rc, out[-1500:]))
        gen, dist = tlc_stats(out)
        cases = []
        if self.export:
            with open(exported) as f:
                for l in f:
                    l = l.strip()
                    if l:
                        c = json.loads(l)
                        cases.append(json.loads(c) if isinstance(c, str) else c)
        return {"module": self.module, "generated": gen, "distinct": dist, "cases": cases}


class Part:
    """One driver, its cases, and the specification its events must satisfy.

    accept: name of the operator Accept(_) (functional traces), or
    step=(Start, Step): names of the operators of a stateful trace.
    cases(rng, tier, exported) returns the list of cases."""

    def __init__(self, name, driver, spec, cases, accept=None, step=None, consts="",
                 extra=(), flags=(), limit=20, nontrivial=None, heap="5g", mutate=True,
                 thorough_factor=None, shake=(1, -1, 2), units=()):
        self.shake = shake        # what the self-test adds to recorded results
        self.units = units        # embeddings of integers the driver chooses from
        self.name, self.driver, self.spec, self.generator = name, driver, spec, cases
        self.accept, self.step, self.consts = accept, step, consts
        self.extra, self.flags, self.limit = extra, flags, limit
        self.nontrivial = nontrivial
        self.heap = heap
        self.mutate = mutate

    def cases(self, rng, tier, exported):
        cases = self.generator(rng, tier, exported)
        for c in cases if self.units else ():
            c.setdefault("unit", rng.choice(self.units))
        return cases

    def cfg(self):
        t = "SPECIFICATION Spec\nINVARIANT Report\nCHECK_DEADLOCK FALSE\n" + self.consts
        if self.accept:
            t += "\nCONSTANT Accept <- %s\n" % self.accept
        else:
            t += "\nCONSTANTS Start <- %s Step <- %s\n" % self.step
        return t

    def compile(self):
        return compile_driver(self.driver, self.extra, self.flags)

    def validate(self, events, work, name):
        """Returns (rejected line numbers, TLC statistics)."""
        with open(events) as f:
            n = sum(1 for _ in f)
        if n == 0:
            return [], (0, 0), 0
        rc, out = tlc(self.spec, self.cfg(), work, name, env={"TRACE": events}, heap=self.heap)
        rejected = sorted({int(m) for m in re.findall(r'<<"REJECTED", (\d+)', out)})
        if rc in (75, 76, 255) or (rc != 0 and not rejected and "rror: " in out and rc < 150):
            # An event the specification cannot even be evaluated on (for
            # instance a result of an impossible shape) is not a step of it.
            ms = re.findall(r"\btraceLine = (\d+)", out)
            if ms and not rejected:
                log(out[-1500:])
                rejected = [int(ms[-1])]
        if rc != 0 and not rejected:
            raise CheckError("TLC failed on trace %s (exit %d):\n%s" % (name, rc, out[-3000:]))
        stats = tlc_stats(out)
        if not rejected and stats[1] < 2 * n:
            raise CheckError("TLC did not examine every event of %s:\n%s" % (name, out[-1500:]))
        return rejected, stats, n


# ------------------------------------------------------------- corruption --

def leaves(x, path=()):
    if isinstance(x, bool) or isinstance(x, int):
        yield path
    elif isinstance(x, list):
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    elif isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))


def corrupt(event, rng, shake):
    """Changes one recorded result; returns None if there is nothing to change."""
    e = json.loads(json.dumps(event))
    ps = list(leaves(e.get("out")))
    if not ps:
        return None
    p = rng.choice(ps)
    x = e["out"]
    if not p:
        e["out"] = (not x) if isinstance(x, bool) else x + rng.choice(shake)
        return e
    for k in p[:-1]:
        x = x[k]
    v = x[p[-1]]
    x[p[-1]] = (not v) if isinstance(v, bool) else v + rng.choice(shake)
    return e


# ------------------------------------------------------------------ check --

class Check:
    def __init__(self, pid, parts, models=(), assumptions=(), rule="", known=()):
        self.pid, self.parts, self.models = pid, parts, list(models)
        self.assumptions, self.rule = list(assumptions), rule
        self.known = list(known)    # (part, text): the cases listed in KNOWN_FINDINGS.md

    def main(self, argv):
        replay = None
        if "--replay" in argv:
            replay = argv[argv.index("--replay") + 1]
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--thorough" in argv:
            tier = "thorough"
        if tier not in ("quick", "thorough"):
            tier = "quick"
        try:
            seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            seed = int(hashlib.sha256(os.environ["VERIF_SEED"].encode()).hexdigest()[:8], 16)
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        work = tempfile.mkdtemp(prefix=self.pid + "-", dir=base)
        try:
            return self.run(tier, seed, work, replay)
        except CheckError as e:
            log("ERROR: %s" % e)
            return 2
        except Exception:
            log("ERROR: %s" % traceback.format_exc())
            return 2
        finally:
            if not os.environ.get("VERIF_KEEP"):
                shutil.rmtree(work, ignore_errors=True)

    def run(self, tier, seed, work, replay):
        t0 = time.time()
        if replay:
            with open(replay) as f:
                r = json.load(f)
            for part in self.parts:
                if part.name == r["part"]:
                    ev = run_driver(part.compile(), [r["event"]["in"]], work, part.name, part.limit)
                    rej, _, _ = part.validate(ev, work, "replay")
                    with open(ev) as f:
                        log(f.read()[:4000])
                    log("rejected" if rej else "accepted")
                    return 1 if rej else 0
            raise CheckError("unknown part in replay file")

        pool = cf.ThreadPoolExecutor(max_workers=CPUS)
        builds = {p.name: pool.submit(p.compile) for p in self.parts}
        mfut = [pool.submit(m.run, tier, work, seed) for m in self.models]
        models = [f.result() for f in mfut]
        for m in models:
            log("model %-28s %d states generated, %d distinct, %d exported behaviours"
                % (m["module"], m["generated"], m["distinct"], len(m["cases"])))
        exported = {m["module"]: m["cases"] for m in models}

        totals = {"states": sum(m["distinct"] for m in models),
                  "transitions": sum(m["generated"] for m in models),
                  "events": 0, "nontrivial": set(), "corrupted": 0, "corrupted_rejected": 0}
        samples, per_part, violation = [], {}, None

        def one(part):
            rng = random.Random("%s/%s/%d" % (self.pid, part.name, seed))
            cases = part.cases(rng, tier, exported)
            binary = builds[part.name].result()
            events = run_driver(binary, cases, work, part.name, part.limit)
            rejected, stats, n = part.validate(events, work, "trace-" + part.name)
            return part, cases, events, rejected, stats, n

        # Parts are executed one after the other: each validation already
        # uses all processors.
        for part in self.parts:
            part, cases, events, rejected, stats, n = one(part)
            log("part %-24s %d cases, %d events validated, %d rejected"
                % (part.name, len(cases), n, len(rejected)))
            with open(events) as f:
                lines = f.read().splitlines()
            totals["states"] += stats[1]
            totals["transitions"] += stats[0]
            totals["events"] += n
            for l in lines:
                k = l.find('"in":')
                totals["nontrivial"].add(hashlib.md5((part.name + l[k:]).encode()).digest())
            per_part[part.name] = {"cases": len(cases), "events": n}
            pick = random.Random(seed)
            short = [l for l in lines if len(l) < 1500]
            for l in pick.sample(short, min(2, len(short))):
                samples.append({"part": part.name, "event": json.loads(l)})
            if n < len(cases) and not rejected:
                raise CheckError("driver recorded %d of %d cases" % (n, len(cases)))
            if rejected:
                violation = self.confirm(part, builds[part.name].result(), lines, rejected, cases, work, seed)
                if violation:
                    break
                raise CheckError("rejection of %s did not repeat" % part.name)
            if part.mutate and not violation:
                c, r = self.binding(part, lines, work, seed)
                totals["corrupted"] += c
                totals["corrupted_rejected"] += r
                if c >= 10 and r == 0:
                    raise CheckError("corrupted results of %s are accepted" % part.name)
        findings = []
        for part, text in self.known if not violation else []:
            events = run_driver(part.compile(), part.cases(None, tier, exported), work, part.name, part.limit)
            if part.validate(events, work, "known-" + part.name)[0]:
                log("KNOWN-FINDING: property=%s %s" % (self.pid, text))
                findings.append(text)
        pool.shutdown()

        ev = {
            "property": self.pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": totals["states"], "transitions": totals["transitions"],
                "traces_validated_against_impl": totals["events"],
                "samples": samples,
                "distinct_traces": len(totals["nontrivial"]),
                "parts": per_part,
                "models": [{k: m[k] for k in ("module", "generated", "distinct")} for m in models],
                "corrupted_traces": totals["corrupted"],
                "corrupted_traces_rejected": totals["corrupted_rejected"],
                "rule": self.rule,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - t0, 2),
            "violations": 1 if violation else 0,
        }
        if findings:
            ev["coverage"]["known_findings"] = findings
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if violation:
            log("VIOLATION property=%s replay=%s" % (self.pid, violation))
            return 1
        log("property %s held on %d recorded events; %d of %d corrupted events rejected (%.1f s)"
            % (self.pid, totals["events"], totals["corrupted_rejected"], totals["corrupted"], time.time() - t0))
        return 0

    def confirm(self, part, binary, lines, rejected, cases, work, seed):
        """A rejection counts only if replaying the case is rejected again."""
        byid = {}
        for k, l in enumerate(lines, 1):
            byid[k] = json.loads(l)
        rejected = sorted(rejected, key=lambda k: len(json.dumps(byid[k].get("in"))))
        for k in rejected[:3]:
            e = byid[k]
            again = run_driver(binary, [e["in"]], work, part.name + "-again", part.limit)
            rej, _, _ = part.validate(again, work, "again-%d" % k)
            if rej:
                return self.save(part, e, seed)
        # The outcome may depend on earlier cases of the same process.
        events = run_driver(binary, cases, work, part.name + "-all", part.limit)
        rej, _, _ = part.validate(events, work, "again-all")
        both = sorted(set(rej) & set(rejected)) or sorted(rejected if rej else ())
        if both:
            return self.save(part, byid[both[0]], seed)
        return None

    def save(self, part, event, seed):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (self.pid, re.sub(r"\W+", "-", part.name), seed))
        with open(path, "w") as f:
            json.dump({"property": self.pid, "part": part.name, "event": event}, f, indent=1)
        log("rejected event: %s" % json.dumps(event)[:1500])
        return path

    def binding(self, part, lines, work, seed):
        """Corrupts recorded results and counts how many TLC rejects."""
        rng = random.Random(seed + 17)
        picked = rng.sample(lines, min(40, len(lines)))
        out = []
        for l in picked:
            if len(l) > 20000:
                continue
            e = corrupt(json.loads(l), rng, part.shake)
            if e is not None:
                out.append(e)
        if not out:
            return 0, 0
        path = os.path.join(work, part.name + ".corrupt.ndjson")
        with open(path, "w") as f:
            for e in out:
                f.write(json.dumps(e) + "\n")
        try:
            rej, _, _ = part.validate(path, work, "corrupt-" + part.name)
        except CheckError:
            return 0, 0
        return len(out), len(rej)
