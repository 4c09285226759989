"""Bounded-exhaustive explorer runtime shared by all checks.

A check is a Python module in /verif/checks that defines
  PROPERTY, LEVEL, RULE, ASSUMPTIONS, VARIANT (build variant)
  units(tier) -> list of Unit(name, func, args, seq=False, timeout=...)
Every unit enumerates a finite, fully determined part of the bounded space and
runs in a freshly forked process (same initial state each time), so any failing
unit replays from its name alone.  A unit that dies (signal, exit() from the
library), hangs or raises is re-run with tracing before it is reported.
"""
import json, os, pickle, resource, select, signal, sys, tempfile, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))


class Unit:
    def __init__(self, name, func, args=(), seq=False, threads=1, timeout=None, env=None,
                 mem=6 << 30):
        self.name, self.func, self.args = name, func, args
        self.seq = seq            # pin to one CPU: the library then takes its serial code paths
        self.threads = threads
        self.timeout = timeout
        self.env = env or {}
        self.mem = mem


class Violation(Exception):
    def __init__(self, rec):
        self.rec = rec


def short(x, n=1500):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as e:
        s = "<unprintable %s>" % e
    return s if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


class Ctx:
    def __init__(self, prop, known, trace=None):
        self.prop, self.known = prop, known
        self.trace = trace
        self.evals = 0
        self.keys = set()
        self.nontriv = 0
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.found = {}
        self.extra = {}
        self.outcomes = set()
        self.cur = None

    def case(self, desc, nontrivial=None):
        """Announce the next case (desc: tuple/str fully describing the input)."""
        self.evals += 1
        self.cur = desc
        if self.trace is not None:
            self.trace.seek(0)
            self.trace.truncate()
            self.trace.write(short(desc, 20000))
            self.trace.flush()
        if nontrivial:
            self.nt(desc)

    def nt(self, desc=None):
        """Mark the current case as non-trivial (distinctness is measured)."""
        k = hash(repr(self.cur if desc is None else desc))
        if k not in self.keys:
            self.keys.add(k)
            if len(self.samples) < 2:
                self.samples.append(short(self.cur if desc is None else desc, 400))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def fail(self, what, expected=None, got=None, key=None, case=None):
        """Report a mismatch; listed known findings are tallied, others raise."""
        if key is not None:
            for k in self.known:
                if k["key"] == key:
                    self.found[key] = self.found.get(key, 0) + 1
                    return
        raise Violation({"what": what, "case": short(self.cur if case is None else case, 8000),
                         "expected": short(expected, 4000), "got": short(got, 4000), "key": key})

    def check(self, cond, what, expected=None, got=None, key=None):
        if not cond:
            self.fail(what, expected, got, key)

    def eq(self, got, expected, what, key=None):
        if not (type(got) == type(expected) and got == expected) and got != expected:
            self.fail(what, expected, got, key)


def load_known(prop):
    try:
        data = json.load(open(os.path.join(VERIF, "known_findings.json")))
    except OSError:
        return []
    return [e for e in data.get("known", []) if e["property"] == prop]


def _child(unit, prop, known, wfd, trace_path, errpath):
    os.setpgid(0, 0)
    try:
        fd = os.open(errpath, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
    except OSError:
        pass
    for k, v in unit.env.items():
        os.environ[k] = v
    if unit.mem:
        resource.setrlimit(resource.RLIMIT_AS, (unit.mem, unit.mem))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    cpus = sorted(os.sched_getaffinity(0))
    if unit.seq:
        os.sched_setaffinity(0, {cpus[os.getpid() % len(cpus)]})
    trace = open(trace_path, "w") if trace_path else None
    ctx = Ctx(prop, known, trace)
    res = {"status": "ok"}
    try:
        unit.func(ctx, *unit.args)
    except Violation as v:
        res = {"status": "violation", "rec": v.rec}
    except BaseException:
        res = {"status": "violation",
               "rec": {"what": "unexpected exception from the code under test (or harness)",
                       "case": short(ctx.cur, 8000), "got": traceback.format_exc()[-4000:],
                       "expected": "no exception", "key": "exception"}}
    res.update(evals=ctx.evals, nontriv=len(ctx.keys), states=ctx.states,
               transitions=ctx.transitions, traces=ctx.traces, samples=ctx.samples,
               found=ctx.found, extra=ctx.extra, outcomes=len(ctx.outcomes))
    data = pickle.dumps(res)
    with os.fdopen(wfd, "wb") as w:
        w.write(data)
    os._exit(0)


def _spawn(unit, prop, known, tmp, trace=False):
    r, w = os.pipe()
    tp = os.path.join(tmp, "trace-%d-%d" % (os.getpid(), r)) if trace else None
    ep = os.path.join(tmp, "err-%d-%s" % (r, hashlib.md5(unit.name.encode()).hexdigest()[:8]))
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            _child(unit, prop, known, w, tp, ep)
        finally:
            os._exit(97)
    os.close(w)
    return {"pid": pid, "fd": r, "unit": unit, "t0": time.time(), "buf": b"", "trace": tp, "err": ep}


def _finish(p):
    try:
        os.killpg(p["pid"], signal.SIGKILL)
    except OSError:
        pass
    _, st = os.waitpid(p["pid"], 0)
    os.close(p["fd"])
    err = ""
    try:
        err = open(p["err"], errors="replace").read()
        at = [i for i in (err.find("ERROR: AddressSanitizer"), err.find("runtime error:")) if i >= 0]
        err = err[max(min(at) - 100, 0):][:2500] if at else err[-1500:]
        os.unlink(p["err"])
    except OSError:
        pass
    if p["buf"]:
        try:
            return pickle.loads(p["buf"])
        except Exception:
            pass
    how = ("killed by signal %d" % os.WTERMSIG(st)) if os.WIFSIGNALED(st) else \
        "exited with status %d" % os.WEXITSTATUS(st)
    return {"status": "died", "how": how, "stderr": err}


def run_single(unit, prop, known, tmp, limit, trace):
    p = _spawn(unit, prop, known, tmp, trace)
    end = time.time() + limit
    hang = False
    while True:
        left = end - time.time()
        if left <= 0:
            hang = True
            break
        rd, _, _ = select.select([p["fd"]], [], [], left)
        if rd:
            b = os.read(p["fd"], 1 << 20)
            if not b:
                break
            p["buf"] += b
    if hang:
        os.killpg(p["pid"], signal.SIGKILL)
        p["buf"] = b""
    res = _finish(p)
    case = None
    if p["trace"]:
        try:
            case = open(p["trace"]).read()
            os.unlink(p["trace"])
        except OSError:
            pass
    if hang:
        res = {"status": "hang", "how": "no answer within %d s" % limit}
    if res["status"] in ("died", "hang"):
        res["case"] = case
    return res


def run_check(mod, tier, only=None, jobs=None):
    t0 = time.time()
    prop = mod.PROPERTY
    known = load_known(prop)
    units = mod.units(tier)
    names = [u.name for u in units]
    assert len(set(names)) == len(names), "duplicate unit names"
    if only is not None:
        units = [u for u in units if u.name == only]
        if not units:
            print("no such unit:", only)
            return 2
    jobs = jobs or int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 4
    deflimit = getattr(mod, "TIMEOUT", {"quick": 150, "thorough": 3600})[tier]
    tot = {"evals": 0, "nontriv": 0, "states": 0, "transitions": 0, "traces": 0}
    samples, found, extra, bad = [], {}, {}, []
    outcomes = 0
    with tempfile.TemporaryDirectory(prefix="vrun-") as tmp:
        queue = list(units)
        running = []
        done = 0
        verbose = os.environ.get("VERIF_VERBOSE")
        while (queue or running) and not bad:
            while queue and len(running) < jobs:
                running.append(_spawn(queue.pop(0), prop, known, tmp))
            rd, _, _ = select.select([p["fd"] for p in running], [], [], 1.0)
            now = time.time()
            for p in list(running):
                if p["fd"] in rd:
                    b = os.read(p["fd"], 1 << 20)
                    if b:
                        p["buf"] += b
                        continue
                    running.remove(p)
                    res = _finish(p)
                elif now - p["t0"] > (p["unit"].timeout or deflimit):
                    running.remove(p)
                    os.killpg(p["pid"], signal.SIGKILL)
                    p["buf"] = b""
                    _finish(p)
                    res = {"status": "hang", "how": "time limit"}
                else:
                    continue
                done += 1
                if verbose:
                    print("  unit %s: %s %.1fs evals=%s" % (p["unit"].name, res["status"],
                          now - p["t0"], res.get("evals")), flush=True)
                if res["status"] != "ok":
                    bad.append((p["unit"], res))
                if "evals" in res:
                    for k in tot:
                        tot[k] += res[k]
                    outcomes += res["outcomes"]
                    samples += res["samples"][:1]
                    for k, v in res["found"].items():
                        found[k] = found.get(k, 0) + v
                    for k, v in res["extra"].items():
                        extra[k] = extra.get(k, 0) + v
        for p in running:
            os.killpg(p["pid"], signal.SIGKILL)
            p["buf"] = b""
            _finish(p)
        viol = None
        for unit, res in bad:
            # replay alone, with tracing, before believing it
            lim = 2 * (unit.timeout or deflimit)
            if tier == "quick":
                lim = min(lim, max(120, 780 - (time.time() - t0)))
            again = run_single(unit, prop, known, tmp, lim, True)
            if again["status"] == "ok":
                # not reproduced: an unowned source of nondeterminism, or load
                print("note: unit %s failed once (%s) and passed when replayed alone"
                      % (unit.name, short(res, 600)))
                again2 = run_single(unit, prop, known, tmp, lim, True)
                if again2["status"] == "ok":
                    for k in tot:
                        if "evals" not in res:
                            tot[k] += again[k]
                    continue
                again = again2
            viol = (unit, again)
            break
    if viol is None and bad and queue and only is None:
        # an unconfirmed failure interrupted the run: finish the remaining units
        print("note: continuing with %d remaining units" % len(queue))
        for u in queue:
            with tempfile.TemporaryDirectory(prefix="vrun-") as tmp:
                res = run_single(u, prop, known, tmp, u.timeout or deflimit, True)
            if res["status"] != "ok":
                viol = (u, res)
                break
            for k in tot:
                tot[k] += res[k]
    wall = time.time() - t0 + getattr(mod, "_build_s", 0)
    # evidence
    step = max(1, len(samples) // 6)
    cov = {"exhaustive": viol is None, "units": len(units),
           "samples": samples[::step][:8] or ["(none)"]}
    if mod.LEVEL == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"],
                   traces_validated_against_impl=tot["traces"],
                   evaluations=tot["evals"])
    else:
        cov.update(evaluations=tot["evals"], distinct_nontrivial=tot["nontriv"])
        if tot["states"]:
            cov.update(states=tot["states"], transitions=tot["transitions"])
    cov["rule"] = mod.RULE
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(tier, "see DESIGN.md")
    if extra:
        cov["counters"] = {k: extra[k] for k in sorted(extra)}
    if outcomes:
        cov["distinct_outcomes_per_unit_total"] = outcomes
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": mod.LEVEL, "coverage": cov, "assumptions": mod.ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": 0 if viol is None else 1,
          "known_findings_seen": found}
    if only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    print("%s %s: units=%d evaluations=%d nontrivial=%d states=%d transitions=%d wall=%.1fs"
          % (prop, tier, len(units), tot["evals"], tot["nontriv"], tot["states"],
             tot["transitions"], wall))
    if extra:
        print("  " + " ".join("%s=%s" % kv for kv in sorted(extra.items())))
    for k in known:
        if k["key"] in found:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if viol is None:
        return 0
    unit, res = viol
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    rec = res.get("rec") or {"what": "the process %s" % res.get("how"), "case": res.get("case"),
                             "got": res.get("stderr", "")}
    path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.md5(
        (unit.name + repr(rec)).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        json.dump({"property": prop, "tier": tier, "unit": unit.name, "record": rec,
                   "replay_cmd": "checks/run.py %s --replay %s" % (prop, path)}, f, indent=1)
    print("unit: %s" % unit.name)
    for k in ("what", "case", "expected", "got"):
        if rec.get(k):
            print("%s: %s" % (k, rec[k]))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
