"""
Runner: drives the real code with seeded workloads while monitors watch.

A property module registers scenarios.  A scenario is a function taking a
``Ctx``; it drives the public API and reports what its oracle saw:

* ``ctx.check(cond, kind, detail)``   one oracle decision
* ``ctx.sig(...)``                    a description of the (non-trivial) case
* ``ctx.event(name)``                 something observed (counted in evidence)

Verdicts are three-valued: violated (exit 1), held on what was observed
(exit 0), inconclusive (exit 2: harness error, monitors never reached, budget
exhausted before anything was decided).
"""

import contextlib
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

from . import boot

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(VERIF, "replays")
KNOWN = os.path.join(VERIF, "known_findings.txt")

CASE_WATCHDOG = 120  # seconds, per case; firing twice = does not terminate
RUN_CAP = {"quick": 300, "thorough": 3000}
QUICK_X = 6  # quick counts are stated per unit; a quick run does six units

PROPS = {}  # id -> Prop


class Prop:
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.scen = []  # (name, fn, quick_n, thorough_n, need_events)

    def scenario(self, quick, thorough=None, needs=()):
        def deco(fn):
            self.scen.append((fn.__name__, fn, quick, thorough or quick * 30, tuple(needs)))
            return fn

        return deco


def prop(pid, rule, assumptions=()):
    p = Prop(pid, rule, assumptions)
    PROPS[pid] = p
    return p


class Violation(Exception):
    pass


class Skip(Exception):
    """the generated case is not usable (degenerate); not counted"""


class CaseTimeout(BaseException):
    pass


def _short(x, n=400):
    try:
        if isinstance(x, np.ma.MaskedArray):
            s = "masked" + repr(x.tolist())
        elif isinstance(x, np.ndarray):
            s = "array" + repr(x.tolist())
        else:
            s = repr(x)
    except Exception as e:  # pragma: no cover
        s = "<unrepr %s>" % type(e).__name__
    return s if len(s) <= n else s[:n] + "..."


class Ctx:
    def __init__(self, pid, scen, idx, seed, tier):
        self.pid, self.scen, self.idx, self.seed, self.tier = pid, scen, idx, seed, tier
        h = hashlib.sha256(("%s|%s|%s|%d" % (seed, pid, scen, idx)).encode()).digest()
        self.rng = np.random.default_rng(int.from_bytes(h[:8], "little"))
        self.r = random.Random(int.from_bytes(h[8:16], "little"))
        self.events = {}
        self.viol = []
        self.sigs = []
        self.notes = {}
        self.trace = []
        self._tmp = None
        self.big = ()  # what is made large in this case: grid, points, time, levels

    # -- oracle interface
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def check(self, cond, kind, /, **detail):
        self.event("oracle_decisions")
        if not bool(cond):
            self.fail(kind, **detail)
            return False
        return True

    def fail(self, kind, /, **detail):
        if len(self.viol) < 5:
            self.viol.append({"kind": kind, "detail": {k: _short(v) for k, v in detail.items()}})

    def close(self, got, want, kind, /, rtol=1e-9, atol=1e-9, **detail):
        """element-wise comparison; NaN never equals anything but NaN"""
        g = np.asarray(np.ma.filled(np.ma.asarray(got, dtype=float), np.nan), dtype=float)
        w = np.asarray(np.ma.filled(np.ma.asarray(want, dtype=float), np.nan), dtype=float)
        if g.shape != w.shape:
            self.event("oracle_decisions")
            self.fail(kind + ":shape", got=g.shape, want=w.shape, **detail)
            return False
        ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        self.event("oracle_decisions", max(1, g.size))
        if not ok.all():
            bad = np.argwhere(~ok)[:5]
            self.fail(
                kind,
                bad_index=bad.tolist(),
                got=[g[tuple(b)] for b in bad],
                want=[w[tuple(b)] for b in bad],
                **detail,
            )
            return False
        return True

    def sig(self, *parts):
        self.sigs.append(parts)

    def note(self, **kw):
        for k, v in kw.items():
            self.notes[k] = _short(v, 300)

    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="gridmon_")
        return self._tmp

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    @contextlib.contextmanager
    def expect_raises(self, exc, kind, /, **detail):
        try:
            yield
        except exc:
            self.event("oracle_decisions")
            self.event("expected_error_seen")
        else:
            self.event("oracle_decisions")
            self.fail(kind, expected=getattr(exc, "__name__", str(exc)), **detail)


def _from_repo(tb):
    root = os.path.realpath(boot.REPO) + os.sep
    return any(os.path.realpath(f.filename).startswith(root) for f in traceback.extract_tb(tb))


def run_case(pid, name, fn, idx, seed, tier):
    ctx = Ctx(pid, name, idx, seed, tier)
    out = {"scen": name, "idx": idx}

    def on_alarm(*a):
        raise CaseTimeout()

    old = signal.signal(signal.SIGALRM, on_alarm)
    old_p = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_WATCHDOG)  # of processor time: other work on the machine does not count
    signal.alarm(3 * CASE_WATCHDOG)
    np.random.seed(ctx.r.randrange(2**31))
    random.seed(ctx.r.randrange(2**31))
    try:
        fn(ctx)
    except Skip:
        out["skip"] = 1
    except CaseTimeout:
        out["timeout"] = 1
    except Exception as e:
        tb = e.__traceback__
        txt = "".join(traceback.format_exception(type(e), e, tb)[-6:])
        if _from_repo(tb):
            # the workload is valid input: the library must answer, not blow up
            last = [f for f in traceback.extract_tb(tb) if os.path.realpath(f.filename).startswith(os.path.realpath(boot.REPO))][-1]
            ctx.event("oracle_decisions")
            ctx.viol.append(
                {"kind": "exception:%s:%s" % (type(e).__name__, last.name), "detail": {"traceback": txt[-1500:]}}
            )
        elif isinstance(e, (OSError, MemoryError, ImportError, NameError)):
            out["harness_error"] = txt[-2500:]
        else:
            # the harness could not use what the library answered (wrong type,
            # wrong shape, missing key ...)
            ctx.event("oracle_decisions")
            ctx.viol.append({"kind": "unusable_answer:%s" % type(e).__name__, "detail": {"traceback": txt[-1500:]}})
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGALRM, old)
        signal.signal(signal.SIGPROF, old_p)
        ctx.cleanup()
    out["events"] = ctx.events
    if ctx.viol:
        out["viol"] = ctx.viol
    out["sigs"] = [hashlib.md5(repr(s).encode()).hexdigest()[:12] for s in ctx.sigs]
    if idx < 2:
        out["sample"] = {"scenario": name, "case": idx, "case_description": [_short(s, 300) for s in ctx.sigs[:2]], **ctx.notes}
    return out


def _worker(pid, cases, seed, tier, path, deadline):
    p = PROPS[pid]
    fns = {s[0]: s[1] for s in p.scen}
    from . import taps

    with open(path, "a") as f:
        for name, idx in cases:
            if time.time() > deadline:
                f.write(json.dumps({"capped": 1}) + "\n")
                break
            f.write(json.dumps({"start": [name, idx]}) + "\n")
            f.flush()
            taps.reset()
            out = run_case(pid, name, fns[name], idx, seed, tier)
            for k, v in taps.counts().items():
                out["events"]["api:" + k] = out["events"].get("api:" + k, 0) + v
            f.write(json.dumps(out) + "\n")
            f.flush()
            if out.get("timeout"):
                os._exit(77)
    os._exit(0)


def known_findings(pid):
    """lines 'known: property=<id> key=<mechanism> <text>'"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known:") and ("property=%s " % pid) in line:
                rest = line.split("key=", 1)[1]
                key, _, text = rest.partition(" ")
                res[key] = text
    return res


def run(pid, tier, seed, only=None, nproc=None, scale=1.0, quiet=False):
    t0 = time.time()
    p = PROPS[pid]
    cases = []
    for name, fn, q, t, needs in p.scen:
        n = q * QUICK_X if tier == "quick" else max(t, 2 * q * QUICK_X)
        n = max(1, int(n * scale))
        cases += [(name, i) for i in range(n)]
    if only:
        cases = [c for c in cases if c in only] or list(only)
    rs = random.Random(0)
    rs.shuffle(cases)
    nproc = nproc or min(8, os.cpu_count() or 1, max(1, len(cases) // 4))
    work = tempfile.mkdtemp(prefix="gridmon_run_")
    deadline = t0 + RUN_CAP[tier]
    crashes = []
    hangs = []
    try:
        jobs = []
        for w in range(nproc):
            jobs.append({"cases": cases[w::nproc], "path": os.path.join(work, "w%d" % w), "pid": None})

        def spawn(j):
            sys.stdout.flush()
            sys.stderr.flush()
            k = os.fork()
            if k == 0:
                try:
                    os.setpgid(0, 0)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.environ["TMPDIR"] = work
                    tempfile.tempdir = work
                    _worker(pid, j["cases"], seed, tier, j["path"], deadline)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(88)
            j["pid"] = k

        for j in jobs:
            spawn(j)
        harness = []
        live = {j["pid"]: j for j in jobs}
        while live:
            k, st = os.waitpid(-1, 0)
            if k not in live:
                continue
            j = live.pop(k)
            if st == 0:
                continue
            last = None
            if os.path.exists(j["path"]):
                for line in open(j["path"]):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "start" in d:
                        last = tuple(d["start"])
            if last is None:
                harness.append("worker died before its first case (status %d)" % st)
                continue
            if os.WIFSIGNALED(st):
                if os.WTERMSIG(st) in (signal.SIGKILL, signal.SIGTERM):
                    harness.append("worker killed (signal %d) at %s" % (os.WTERMSIG(st), last))
                else:
                    crashes.append((last, "signal %d" % os.WTERMSIG(st)))
            elif os.WEXITSTATUS(st) == 77:
                hangs.append(last)
            else:
                harness.append("worker exit %d at %s" % (os.WEXITSTATUS(st), last))
                continue
            k = j["cases"].index(last)
            j["cases"] = j["cases"][k + 1 :]
            if j["cases"] and len(crashes) + len(hangs) < 6:
                spawn(j)
                live[j["pid"]] = j
        results = []
        capped = 0
        for j in jobs:
            if os.path.exists(j["path"]):
                for line in open(j["path"]):
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if "capped" in d:
                        capped += 1
                    elif "scen" in d:
                        results.append(d)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    order = {s[0]: n for n, s in enumerate(p.scen)}
    results.sort(key=lambda d: (order.get(d["scen"], 99), d["idx"]))
    known = known_findings(pid)
    events, sigs, per, samples = {}, set(), {}, []
    viols, seen_known = [], {}
    evals = skipped = 0
    for d in results:
        if d.get("skip"):
            skipped += 1
            continue
        if d.get("timeout"):
            continue
        if "harness_error" in d:
            harness.append("%s/%d: %s" % (d["scen"], d["idx"], d["harness_error"]))
            continue
        evals += 1
        s = per.setdefault(d["scen"], {"cases": 0, "distinct": set(), "oracle_decisions": 0})
        s["cases"] += 1
        for k, v in d["events"].items():
            events[k] = events.get(k, 0) + v
        s["oracle_decisions"] += d["events"].get("oracle_decisions", 0)
        for h in d["sigs"]:
            sigs.add((d["scen"], h))
            s["distinct"].add(h)
        if "sample" in d and len([x for x in samples if x["scenario"] == d["scen"]]) < 1:
            samples.append(d["sample"])
        for v in d.get("viol", []):
            v = dict(v, scen=d["scen"], idx=d["idx"])
            if v["kind"] in known:
                seen_known.setdefault(v["kind"], []).append(v)
            else:
                viols.append(v)
    for last, why in crashes:
        viols.append({"kind": "process_crash", "detail": {"why": why}, "scen": last[0], "idx": last[1]})
    if hangs:
        # confirm alone before believing a wall-clock watchdog
        fns = {s[0]: s[1] for s in p.scen}
        for h in hangs[:2]:
            sys.stdout.flush()
            k = os.fork()
            if k == 0:
                d = run_case(pid, h[0], fns[h[0]], h[1], seed, tier)
                os._exit(77 if d.get("timeout") else 0)
            _, st = os.waitpid(k, 0)
            if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 77:
                viols.append({"kind": "no_answer_within_%ds" % CASE_WATCHDOG, "detail": {}, "scen": h[0], "idx": h[1]})
            else:
                harness.append("case %s hit the watchdog once, finished alone" % (h,))

    inconclusive = []
    if harness:
        inconclusive.append("harness error: " + harness[0])
    if not only:
        for name, fn, q, t, needs in p.scen:
            s = per.get(name)
            if (s is None or s["oracle_decisions"] == 0) and not viols:
                inconclusive.append("scenario %s decided nothing" % name)
        for name, fn, q, t, needs in p.scen:
            for ev in needs:
                if events.get(ev, 0) == 0 and not viols:
                    inconclusive.append("monitor event %r never observed" % ev)
    wall = time.time() - t0
    cov = {
        "evaluations": evals,
        "distinct_nontrivial": len(sigs),
        "rule": p.rule,
        "samples": samples or [{"note": "no case completed"}],
        "scenarios": {
            k: {"cases": v["cases"], "distinct": len(v["distinct"]), "oracle_decisions": v["oracle_decisions"]}
            for k, v in per.items()
        },
        "events": {k: v for k, v in sorted(events.items())},
        "degenerate_cases_skipped": skipped,
        "workers_stopped_by_time_cap": capped,
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": int(seed),
        "level": "exploration",
        "coverage": cov,
        "assumptions": p.assumptions,
        "wall_s": round(wall, 3),
        "violations": len(viols),
    }
    if not only:
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k, vs in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
    for k, text in sorted(known.items()):
        if k not in seen_known and not only:
            print("note: listed finding %s not observed in this run" % k)
    if viols:
        os.makedirs(REPLAYS, exist_ok=True)
        bykind = {}
        for v in viols:
            bykind.setdefault(v["kind"], []).append(v)
        for n, (kind, vs) in enumerate(sorted(bykind.items())):
            if n >= 8:
                break
            path = os.path.join(REPLAYS, "%s-%d.json" % (pid, n))
            with open(path, "w") as f:
                json.dump(
                    {"property": pid, "tier": tier, "seed": seed, "kind": kind, "occurrences": len(vs), "cases": vs[:3],
                     "replay_cmd": "/opt/venv/bin/python /verif/run.py %s --replay %s" % (pid, path)},
                    f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  kind=%s x%d  first: %s/%d %s" % (kind, len(vs), vs[0]["scen"], vs[0]["idx"], json.dumps(vs[0]["detail"])[:1200]))
        rc = 1
    elif inconclusive:
        for i in inconclusive[:5]:
            print("INCONCLUSIVE property=%s %s" % (pid, i))
        rc = 2
    else:
        print(
            "HELD property=%s on %d executions (%d distinct non-trivial, %d oracle decisions, %.1f s)"
            % (pid, evals, len(sigs), events.get("oracle_decisions", 0), wall)
        )
        rc = 0
    return rc
