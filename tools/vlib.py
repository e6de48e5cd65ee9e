"""Shared machinery of the checks: building, executing scripts, running TLC."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, os.cpu_count() or 8)


class ToolError(Exception):
    pass


def run(cmd, timeout, env=None, cwd=None, stdout=subprocess.PIPE):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR"):
        e.pop(k, None)
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, stdout=stdout, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out or ""
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


FEATURES = {
    "default": "par,nopos,sqrt,noidx",
    "idx": "par,nopos,sqrt",
    "sq": "par,nopos,noidx",
    "sqidx": "par,nopos",
    "pos": "par,sqrt",
    "possq": "par",
    "ser": "nopos,sqrt,noidx",
    "sersq": "nopos",
    "serpos": "sqrt",
    "bare": "",
    "timing": "par,nopos,sqrt,timing",
    "count": "par,nopos,sqrt,noidx,count",
    "work": "par,nopos,work",
}


def build_exec(feat="default", flavour="release", lite=False):
    """builds the script executor against /repo's working tree"""
    tdir = os.path.join(TARGET, "exec-" + feat + ("-lite" if lite else "") + ("" if flavour == "release" else "-checked"))
    feats = FEATURES[feat]
    if lite:
        feats = (feats + ",lite").strip(",")
    cmd = ["cargo", "build", "--offline", "--locked", "--manifest-path",
           os.path.join(VERIF, "harness", "Cargo.toml"), "--features", feats]
    if flavour == "release":
        cmd.append("--release")
    rc, out = run(cmd, 800, env={"CARGO_TARGET_DIR": tdir})
    if rc != 0:
        raise ToolError("building the executor failed:\n" + out[-3000:])
    return os.path.join(tdir, "release" if flavour == "release" else "debug", "exec")


VENV = "/opt/vp/venv/bin/python"


def build_py():
    """builds the Python module against /repo's working tree; returns (runner, env)"""
    if not os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/opt/vp/Cargo.lock", "/repo/Cargo.lock")
    tdir = os.path.join(TARGET, "py")
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--manifest-path", "/repo/pyfnntw/Cargo.toml"]
    rc, out = run(cmd, 800, env={"CARGO_TARGET_DIR": tdir, "PYO3_PYTHON": VENV})
    if rc != 0:
        raise ToolError("building pyfnntw failed:\n" + out[-3000:])
    mod = os.path.join(tdir, "mod")
    os.makedirs(mod, exist_ok=True)
    shutil.copy(os.path.join(tdir, "release", "libpyfnntw.so"), os.path.join(mod, "pyfnntw.so"))
    env = {"PYTHONPATH": mod, "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
    return [VENV, os.path.join(VERIF, "tools", "pyexec.py")], env


MIRI = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "-q", "--manifest-path",
        os.path.join(VERIF, "harness", "Cargo.toml"), "--features", FEATURES["default"]]


def miri_env(seed):
    """an interpreter that decides the schedule, by its seed, and knows about data races"""
    flags = ["permissive-provenance", "disable-stacked-borrows", "disable-validation", "ignore-leaks", "disable-isolation",
             "preemption-rate=0.1", "deterministic-floats", "seed=%d" % seed]
    return {"CARGO_TARGET_DIR": os.path.join(TARGET, "miri"), "RUSTFLAGS": "-Awarnings",
            "MIRIFLAGS": " ".join("-Zmiri-" + f for f in flags), "RAYON_NUM_THREADS": "4"}


def build_miri():
    base = os.path.join(TARGET, "miri-warm-%d" % os.getpid())
    open(base, "w").close()
    rc, out = run(MIRI + ["--", base, base + ".out"], 800, env=miri_env(0))
    for x in (base, base + ".out"):
        if os.path.exists(x):
            os.remove(x)
    if rc != 0:
        raise ToolError("the executor does not run under Miri:\n" + out[-3000:])


def tlc(module, cfg, env=None, timeout=600, workers=1, xmx="3g", extra=(), meta=None, xss="512m"):
    meta = meta or os.path.join(TARGET, "meta", "%s-%d-%d" % (module, os.getpid(), random.getrandbits(40)))
    os.makedirs(meta, exist_ok=True)
    cmd = ["java", "-Xss" + xss, "-Xmx" + xmx,
           "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *extra, os.path.join(SPEC, module + ".tla")]
    rc, out = run(cmd, timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    return rc, out


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.rng = random.Random("%s/%s/%s" % (seed, pid, tier))
        self.states = self.transitions = self.traces = self.events = 0
        self.ops, self.models, self.samples, self.notes = {}, [], [], []
        self.violations = []
        self.work = os.path.join(TARGET, "work", pid + "-" + str(os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.assumptions = []
        self.exhaustive = []
        self.nfile = 0
        self.lock = threading.Lock()
        self.skipped = []
        self.accepted = []       # some accepted sessions, for the control of the binding
        self.corrupted = {}

    def build(self, what, lite=False):
        """executors of (feature set, flavour); an extra feature set that cannot be built while
        the first one can is left out (None, and named in the evidence)"""
        def one(j):
            try:
                return build_exec(what[j][0], what[j][1], lite)
            except ToolError as e:
                if j == 0:
                    raise
                return e
        with cf.ThreadPoolExecutor(max_workers=len(what)) as ex:
            exes = list(ex.map(one, range(len(what))))
        for j, e in enumerate(exes):
            if isinstance(e, ToolError):
                if what[j][0] == what[0][0]:
                    raise e
                self.skipped.append("/".join(what[j]))
                self.notes.append("not built: %s: %s" % ("/".join(what[j]), str(e)[-500:]))
                exes[j] = None
        return exes

    # ---- design level ----------------------------------------------------
    def model(self, module, cfg, expect="ok", timeout=600, workers=4, xmx="6g", extra=()):
        """model-checks a configuration; expect: ok, or violated (a deliberately broken variant)"""
        rc, out = tlc(module, cfg, timeout=timeout, workers=workers, xmx=xmx, extra=extra)
        gen, dist = tlc_counts(out)
        good = rc == 0 if expect == "ok" else rc in (12, 13)
        if not good:
            raise ToolError("model %s/%s: expected %s, TLC ended with %s\n%s" % (module, cfg, expect, rc, out[-3000:]))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "expected": expect, "states": dist, "generated": gen})

    def prove(self, module, threads=3):
        """has TLAPS check the proofs of a module (no bound on anything); repeated with longer
        time limits for the provers if some obligation was not proved"""
        for stretch in (3, 12):
            d = os.path.join(self.work, "%s-%d" % (module, stretch))
            rc, out = run(["tlapm", "--cache-dir", d, "--threads", str(threads), "--stretch", str(stretch), module + ".tla"],
                          800, cwd=SPEC)
            m = re.search(r"All (\d+) obligations? proved", out)
            shutil.rmtree(d, ignore_errors=True)
            if rc == 0 and m:
                self.models.append({"module": module, "config": "TLAPS", "expected": "proved", "obligations": int(m.group(1))})
                return
        raise ToolError("TLAPS does not prove %s (%s)\n%s" % (module, rc, out[-3000:]))

    # ---- enumeration of scripts by TLC ------------------------------------
    def enumerate(self, cfg, module="Enum", timeout=300, extra=()):
        rc, out = tlc(module, cfg, timeout=timeout, workers=1, extra=extra)
        if rc != 0:
            raise ToolError("script generation %s failed (%s)\n%s" % (cfg, rc, out[-2000:]))
        gen, dist = tlc_counts(out)
        self.states += dist
        self.transitions += gen
        rows = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                rows.append(json.loads(json.loads(line)[2:]))
        self.models.append({"module": module, "config": cfg, "expected": "scripts", "states": dist,
                            "generated": gen, "scripts": len(rows)})
        return rows

    # ---- conformance -------------------------------------------------------
    def execute(self, exe, sessions, timeout, env=None, runner=None):
        """runs sessions; returns list of (session, events); a crash or hang ends
        the list with the event that did not return"""
        with self.lock:
            self.nfile += 1
            base = os.path.join(self.work, "s%d" % self.nfile)
        script, trace = base + ".script", base + ".trace"
        with open(script, "w") as f:
            for s in sessions:
                for op in s:
                    f.write(json.dumps(op) + "\n")
        cmd = (runner or [exe]) + [script, trace]
        rc, out = run(cmd, timeout, env=env)
        with open(trace + ".out", "w") as f:
            f.write(out)
        if rc == 3 or "TOOL-ERROR" in out:
            raise ToolError("executor: " + out[-2000:])
        lines = []
        if os.path.exists(trace):
            with open(trace) as f:
                for x in f:
                    if not x.endswith("\n"):
                        break
                    lines.append(x.rstrip("\n"))
        total = sum(len(s) for s in sessions)
        broke = None
        if len(lines) < total:
            if rc == 0:
                raise ToolError("executor wrote %d of %d events\n%s" % (len(lines), total, out[-1000:]))
            broke = "hang" if rc is None else "crash"
            k = len(lines)
            for s in sessions:
                if k < len(s):
                    op = dict(s[k])
                    break
                k -= len(s)
            op["res"] = broke
            lines.append(json.dumps(op))
            self.notes.append("%s: %s" % (broke, out[-500:]))
        elif rc != 0:
            raise ToolError("executor ended with %s\n%s" % (rc, out[-1500:]))
        with open(trace, "w") as f:
            f.write("\n".join(lines) + "\n")
        return trace, lines

    def validate(self, trace, timeout=600, module="Trace", cfg="Trace.cfg", xmx="3g"):
        """None if every event is a step of the specification, else its 0-based line"""
        rc, out = tlc(module, cfg, env={"TRACE": trace}, timeout=timeout, xmx=xmx)
        gen, dist = tlc_counts(out)
        m = re.search(r'<<"(ACCEPTED|REJECTED)", (\d+)>>', out)
        if rc not in (0, None) and not m and "TLC was evaluating" in out \
                and "StackOverflow" not in out and "OutOfMemory" not in out and gen > 0:
            # the specification has no meaning for this event (a result outside its types)
            self.notes.append("undefined: " + out[out.find("Error:"):][:600])
            return gen - 1, gen, dist
        if rc != 0 or not m:
            raise ToolError("trace validation of %s failed (%s)\n%s" % (trace, rc, out[-3000:]))
        return (None if m.group(1) == "ACCEPTED" else int(m.group(2)) - 1), gen, dist

    def one_chunk(self, label, exe, sessions, timeout, env, runner, module="Trace", cfg="Trace.cfg", xmx="3g"):
        t0 = time.time()
        trace, lines = self.execute(exe, sessions, timeout, env, runner)
        t1 = time.time()
        bad, gen, dist = self.validate(trace, module=module, cfg=cfg, xmx=xmx)
        if os.environ.get("CHECK_VERBOSE"):
            print("  %s: %d sessions, cost %d, %.1fs + %.1fs" % (
                label, len(sessions), sum(map(session_cost, sessions)), t1 - t0, time.time() - t1), flush=True)
        return label, sessions, lines, bad, gen, dist

    def conform(self, batches, chunk_cost=1200000, timeout=150, env=None, module="Trace", cfg="Trace.cfg", xmx="3g"):
        """batches: list of (label, exe or runner list, sessions)"""
        jobs = []
        weigh = [(label, exe, [(session_cost(x), x) for x in sessions]) for label, exe, sessions in batches]
        whole = sum(w for _, _, l in weigh for w, _ in l) or 1
        for label, exe, l in weigh:
            if not l or exe is None:
                continue
            cost = sum(w for w, _ in l)
            target = min(chunk_cost, max(20000, cost // max(1, round(CPUS * cost / whole))))
            parts = [[target, []]]
            for w, x in sorted(l, key=lambda y: -y[0]):
                fits = [p for p in parts[-CPUS:] if p[0] + w <= target * 1.05]
                if fits:
                    p = min(fits, key=lambda p: p[0])
                else:
                    p = [0, []]
                    parts.append(p)
                p[0] += w
                p[1].append(x)
            parts = parts[1:]
            jobs += [(label, exe, x) for _, x in parts]
        jobs.sort(key=lambda j: -sum(session_cost(s) for s in j[2]))
        with cf.ThreadPoolExecutor(max_workers=CPUS) as ex:
            futs = []
            for label, exe, ses in jobs:
                runner = exe if isinstance(exe, list) else None
                futs.append(ex.submit(self.one_chunk, label, exe, ses, timeout, env, runner, module, cfg, xmx))
            failed = None
            for f in futs:
                try:
                    label, ses, lines, bad, gen, dist = f.result()
                except ToolError as e:
                    failed = failed or e
                    continue
                self.states += dist
                self.transitions += gen
                self.record(label, ses, lines, bad)
        if failed:
            raise failed
        if not self.violations:
            self.control(module, cfg, xmx)

    def conform_miri(self, label, groups, timeout=400):
        """each group of sessions under a schedule of its own"""
        try:
            build_miri()
        except ToolError as e:
            self.skipped.append(label)
            self.notes.append(str(e)[-500:])
            return

        def one(j):
            runner = MIRI + ["--"]
            trace, lines = self.execute(None, groups[j], timeout, miri_env(self.seed * 1000 + j), runner)
            last = json.loads(lines[-1]).get("res")
            if last == "hang" or last == "crash" and re.search("unsupported operation|resource exhaustion", open(trace + ".out").read()):
                self.skipped.append(label)      # says nothing about the code
                return lines[:-1], None, 0, 0
            bad, gen, dist = self.validate(trace)
            return lines, bad, gen, dist
        with cf.ThreadPoolExecutor(max_workers=CPUS) as ex:
            for j, (lines, bad, gen, dist) in enumerate(ex.map(one, range(len(groups)))):
                self.states += dist
                self.transitions += gen
                self.record(label, groups[j], lines, bad)

    # ---- control of the binding -------------------------------------------
    def control(self, module, cfg, xmx):
        """Recorded outcomes are falsified, one at a time: the specification must
        refuse each of them, at the falsified event."""
        from corrupt import falsify
        r = random.Random("%s/%s/control" % (self.seed, self.pid))
        pool, self.accepted = self.accepted, []
        todo, kinds = [], {}
        for lines in r.sample(pool, len(pool)):
            for kind, at, new in falsify(r, lines):
                if kinds.get(kind, 0) < (1 if self.quick else 6):
                    kinds[kind] = kinds.get(kind, 0) + 1
                    todo.append((kind, lines[:at] + [new], at))
        r.shuffle(todo)
        todo = todo[:8 if self.quick else 60]

        def one(j):
            kind, lines, at = todo[j]
            path = os.path.join(self.work, "false-%d" % j)
            with open(path, "w") as f:
                f.write("\n".join(lines) + "\n")
            bad, _, _ = self.validate(path, module=module, cfg=cfg, xmx=xmx)
            return bad == at
        with cf.ThreadPoolExecutor(max_workers=CPUS) as ex:
            for j, ok in enumerate(ex.map(one, range(len(todo)))):
                if not ok:
                    raise ToolError("a falsified %s was accepted:\n%s" % (todo[j][0], todo[j][1][-1][:2000]))
                k = todo[j][0]
                self.corrupted[k] = self.corrupted.get(k, 0) + 1

    def record(self, label, sessions, lines, bad):
        upto = len(lines) if bad is None else bad
        pos = 0
        for s in sessions:
            if pos + len(s) <= upto:
                self.traces += 1
                self.keep(lines[pos:pos + len(s)])
            elif bad is not None and pos <= bad < pos + len(s):
                self.violation(label, s, lines[pos:bad + 1])
            pos += len(s)
        for x in lines[:upto]:
            op = json.loads(x)["op"] if len(x) < 20000 else re.search(r'"op":\s*"(\w+)"', x).group(1)
            self.ops[op] = self.ops.get(op, 0) + 1
        self.events += upto
        if len(self.samples) < 3 and sessions:
            self.samples.append({"run": label, "first_events": [x[:400] for x in lines[:3]]})

    def keep(self, lines):
        """a sample of the accepted sessions"""
        if sum(map(len, lines)) > 40000:
            return
        self.nkeep = getattr(self, "nkeep", 0) + 1
        if len(self.accepted) < 60:
            self.accepted.append(lines)
        else:
            j = self.rng.randrange(self.nkeep)
            if j < 60:
                self.accepted[j] = lines

    def violation(self, label, session, events):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        json.dump({"property": self.pid, "run": label, "script": session,
                   "rejected_event": json.loads(events[-1]) if len(events[-1]) < 2000000 else events[-1][:2000],
                   "events_before": [x[:2000] for x in events[:-1]], "notes": self.notes}, open(path, "w"), indent=1)
        self.violations.append(path)
        print("rejected (%s): %s" % (label, events[-1][:600]))
        print("VIOLATION property=%s replay=%s" % (self.pid, path), flush=True)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "events_validated": self.events,
               "calls_by_kind": self.ops, "models": self.models,
               "enumerated_completely": self.exhaustive, "falsified_events_refused": self.corrupted,
               "skipped": self.skipped, "samples": self.samples}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d traces (%d events) validated, %d states, %.1fs, %d violations" % (
            self.pid, self.traces, self.events, self.states, time.time() - self.t0, len(self.violations)))
        return 1 if self.violations else 0


def session_cost(s):
    """rough work for TLC"""
    c, n, D, per = 0, 1, 2, False
    ns, arrs = {}, {}
    for op in s:
        o = op["op"]
        c += 5
        if o == "new":
            n = op["gen"]["n"] if "gen" in op else max(1, len(op["pts"]))
            D = op["dim"]
            ns[op["s"]] = (n, D, 1)
            c += n * D // 4
        elif o == "box":
            n, D, _ = ns.get(op["s"], (1, 1, 1))
            ns[op["s"]] = (n, D, 2)
        elif o in ("q1", "qk", "batch", "axis"):
            c += call_cost(op, ns)
        elif o == "many":
            c += sum(call_cost(x, ns) for x in op["calls"]) + 150000
        elif o == "again":
            c += sum(call_cost(x, ns) for x in op["calls"]) if "calls" in op else \
                call_cost(dict(op["call"], op="axis" if "ax" in op["call"] else "batch", k=op["call"].get("k", 1)), ns)
            c += 50000
        elif o == "remake":
            c += 100000
        elif o == "conc":
            c += sum(call_cost(x, ns) for t in op["thr"] for x in t)
        elif o == "arr":
            arrs[op["a"]] = (op["gen"]["n"] if "gen" in op else max(1, len(op["pts"])), op["cols"])
            c += arrs[op["a"]][0]
        elif o == "tree":
            n, D = arrs.get(op["a"], (1, 1))
            ns[op["s"]] = (n, D, 2 if "box" in op else 1)
        elif o == "query":
            c += call_cost(dict(op, op="axis" if "ax" in op else "batch", k=op.get("k", 1)), ns)
        elif o == "threads":
            c += sum(call_cost(dict(x, op="axis" if "ax" in x else "batch", k=x.get("k", 1)), ns)
                     for t in op["thr"] for x in t)
        elif o == "dump":
            n, D, _ = ns.get(op["s"], (1, 1, 1))
            c += n * D * 4
        elif o == "moms":
            c += 2 * (op["gen"]["n"] if "gen" in op else len(op["pts"]))
    return c


def call_cost(op, ns):
    n, D, p = ns.get(op["s"], (1, 1, 1))
    rows = len(op["qs"]) if "qs" in op else 1
    k = op.get("k", 1)
    k = n if k < 0 else min(k, n)
    w = n * D * p + 4 * k
    if op["op"] == "axis":
        w = n * (k + 1) * (2 ** D if p == 2 else 1) * 2
    elif p == 2 and op["op"] != "q1":
        w += k * 2 ** D + k * k
    return rows * w
