"""Runner: loads spreg from the working tree, drives the workload of one property,
collects monitor events, and turns them into a verdict, evidence and replay files."""
import argparse
import contextlib
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import io
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


# ---------------------------------------------------------------- loading spreg
class _NoCacheLoader(importlib.machinery.SourceFileLoader):
    """Always compiles the current source: a stale .pyc can never be run."""

    def path_stats(self, path):
        raise OSError("no bytecode cache")


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != "spreg" and not name.startswith("spreg."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            if os.path.exists(f):
                return importlib.util.spec_from_file_location(
                    name, f, loader=_NoCacheLoader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_NoCacheLoader(name, f))
        return None


def load_spreg():
    sys.meta_path.insert(0, _Finder())
    warnings.simplefilter("ignore")
    import spreg
    assert os.path.realpath(spreg.__file__).startswith(os.path.realpath(REPO) + os.sep), spreg.__file__
    return spreg


# ---------------------------------------------------------------- rng / configs
def seed_of():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def rng_for(*parts):
    import numpy as np
    ints = [p if isinstance(p, int) else zlib.crc32(str(p).encode()) for p in parts]
    return np.random.default_rng(ints)


class CaseTimeout(Exception):
    pass


class Skip(Exception):
    """The generated case is not a valid instance (e.g. ill-conditioned): not counted."""


class StopCase(Exception):
    """A violation was already recorded and the case cannot go on."""


class Ctx:
    """What one case can observe, and what it saw."""

    def __init__(self, prop, sub, idx, tier, seed):
        self.prop, self.sub, self.idx, self.tier, self.seed = prop, sub, idx, tier, seed
        self.rng = rng_for(seed, prop, sub, idx)
        self.cfg = {}
        self.desc = {}
        self.viol = []       # (key, message)
        self.checks = {}     # monitor name -> number of evaluations
        self.events = 0
        self.sig = []
        self.maxerr = {}

    # balanced choice: over consecutive indices each value appears equally often
    def pick(self, name, choices):
        choices = list(choices)
        m = len(choices)
        block = self.idx // m
        order = rng_for(self.seed, self.prop, self.sub, name, block).permutation(m)
        v = choices[int(order[self.idx % m])]
        self.cfg[name] = v if isinstance(v, (str, int, float, bool, type(None))) else repr(v)
        return v

    def fail(self, key, msg):
        self.viol.append((key, str(msg)[:600]))

    def ok(self, key, cond, msg=""):
        self.checks[key] = self.checks.get(key, 0) + 1
        if not bool(cond):
            self.fail(key, msg or "condition false")
            return False
        return True

    def close(self, key, got, want, rtol=1e-6, atol=0.0, scale=None, note=""):
        """|got-want| <= atol + rtol*max(|want| elementwise norm, scale)."""
        import numpy as np
        self.checks[key] = self.checks.get(key, 0) + 1
        try:
            g = np.asarray(got, dtype=float)
            w = np.asarray(want, dtype=float)
        except Exception as e:
            self.fail(key, "not numeric: %r vs %r (%s)" % (type(got), type(want), e))
            return False
        if g.shape != w.shape:
            if g.size == w.size:
                g = g.reshape(-1)
                w = w.reshape(-1)
            else:
                self.fail(key, "shape %s vs expected %s %s" % (g.shape, w.shape, note))
                return False
        if g.size == 0:
            return True
        if not np.all(np.isfinite(w)):
            raise Skip("oracle not finite: " + key)
        if not np.all(np.isfinite(g)):
            self.fail(key, "non-finite result %s vs %s %s" % (_short(g), _short(w), note))
            return False
        sc = np.max(np.abs(w)) if scale is None else max(scale, 0.0)
        err = np.max(np.abs(g - w))
        tol = atol + rtol * max(sc, 1e-300)
        rel = float(err / tol) if tol > 0 else (0.0 if err == 0 else np.inf)
        if rel > self.maxerr.get(key, 0.0):
            self.maxerr[key] = rel
        if not err <= tol:
            self.fail(key, "max|diff|=%.3g > tol %.3g: got %s expected %s %s" % (
                err, tol, _short(g), _short(w), note))
            return False
        return True

    def pclose(self, key, got, want, note=""):
        """p-values: absolute tolerance."""
        return self.close(key, got, want, rtol=0, atol=2e-6, note=note)

    @contextlib.contextmanager
    def quiet(self):
        buf = io.StringIO()
        with warnings.catch_warnings(record=True) as rec, contextlib.redirect_stdout(buf):
            warnings.simplefilter("always")
            self._warns = rec
            yield rec
        self._out = buf.getvalue()

    def run(self, key, fn, *a, **kw):
        """Call the code under test on a VALID input: any exception is a violation."""
        self.events += 1
        try:
            with self.quiet():
                return fn(*a, **kw)
        except (CaseTimeout, Skip, StopCase):
            raise
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/spreg/" in f.filename]
            loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "?"
            self.fail("%s.exception" % key, "%s: %s at %s" % (type(e).__name__, str(e)[:200], loc))
            raise StopCase()

    def refused(self, key, fn, *a, **kw):
        """Call on an INVALID input: returning normally is a violation."""
        self.events += 1
        self.checks[key] = self.checks.get(key, 0) + 1
        try:
            with self.quiet():
                r = fn(*a, **kw)
        except (CaseTimeout, Skip, StopCase):
            raise
        except Exception as e:
            return e
        self.fail(key, "accepted an invalid input, returned %r" % (type(r).__name__,))
        return None

    def note(self, **kw):
        for k, v in kw.items():
            self.desc[k] = v


def _short(a):
    import numpy as np
    a = np.asarray(a).reshape(-1)
    s = ", ".join("%.8g" % v for v in a[:6])
    return "[" + s + (", ...(%d)" % a.size if a.size > 6 else "") + "]"


# ---------------------------------------------------------------- worker side
_MOD = None
QUICK = 3            # cases of the quick tier over those listed in SUBS


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(args):
    prop, sub, idx, tier, seed, limit = args
    fn = _MOD.SUBS[sub][0]
    ctx = Ctx(prop, sub, idx, tier, seed)
    t0 = time.time()
    status = "held"
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn(ctx)
    except CaseTimeout as e:
        status = "timeout"
        ctx.desc["at"] = " < ".join("%s:%d" % (f.name, f.lineno) for f in reversed(traceback.extract_tb(e.__traceback__)[-8:]))
    except Skip as e:
        status = "skip"
        ctx.desc["skip"] = str(e)
    except StopCase:
        pass
    except Exception as e:
        # an error of the harness or of an oracle, unless the code under test raised it
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if "/spreg/" in f.filename.replace(VERIF, "")]
        status = "error"
        ctx.desc["error"] = "".join(traceback.format_exception(e))[-1500:]
        import numpy as np
        if isinstance(e, np.linalg.LinAlgError) and not last:
            status = "skip"      # the oracle itself is not defined on this instance
        elif not isinstance(e, (MemoryError, OSError)):
            # the result object could not even be examined (missing attribute, wrong
            # shape or type) or spreg raised in an accessor: an observable failure
            fr = [f for f in tb if os.path.basename(f.filename) != "core.py"][-1:]
            where = "%s:%s" % (os.path.basename(fr[0].filename), fr[0].name) if fr else "?"
            ctx.fail("unusable-result:%s" % type(e).__name__, "%s at %s: %s" % (type(e).__name__, where, str(e)[:300]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    if ctx.viol:
        status = "violation"
    return dict(sub=sub, idx=idx, status=status, viol=ctx.viol, checks=ctx.checks, events=ctx.events,
                cfg=ctx.cfg, desc=ctx.desc, maxerr=ctx.maxerr, t=time.time() - t0,
                sig=json.dumps([sub, ctx.cfg, ctx.sig], sort_keys=True, default=str))


def _chunk(args):
    return [run_case(a) for a in args]


# ---------------------------------------------------------------- known findings
def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [k for k in data.get("findings", []) if k.get("property") == prop and k.get("status") == "known"]


def match_known(known, sub, key):
    full = "%s/%s" % (sub, key)
    for k in known:
        for pat in k["keys"]:
            if full == pat:
                return k
    return None


# ---------------------------------------------------------------- main
def main(argv):
    global _MOD
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--only", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop, tier, seed = a.prop, a.tier, seed_of()
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        prop, seed, tier = r["property"], r["seed"], r["tier"]
        a.only = "%s:%d" % (r["sub"], r["idx"])
        a.jobs = 1
        a.no_evidence = True
        a.v = True
    t0 = time.time()
    load_spreg()
    _MOD = importlib.import_module("vf.checks.%s" % prop.lower())
    limit = getattr(_MOD, "CASE_LIMIT", 60 if tier == "quick" else 180)
    budget = a.budget or (600 if tier == "quick" else 3000)
    jobs = []
    for sub, spec in _MOD.SUBS.items():
        n = int(round((min(QUICK * spec[1], max(spec[1:])) if tier == "quick" else spec[2]) * a.scale))
        if a.only:
            s, _, i = a.only.partition(":")
            if s != sub:
                continue
            if i:
                jobs.append((prop, sub, int(i), tier, seed, limit * 10))
                continue
        jobs += [(prop, sub, i, tier, seed, limit) for i in range(max(n, 1))]
    # interleave the subs so that a budget cut still leaves every sub covered
    jobs.sort(key=lambda j: (j[2], j[1]))
    results = []
    cut = False
    if a.jobs <= 1 or len(jobs) == 1:
        for j in jobs:
            results.append(run_case(j))
            if time.time() - t0 > budget:
                cut = True
                break
    else:
        daemonic_ok = getattr(_MOD, "NEEDS_CHILDREN", False)
        results, cut = _parallel(jobs, a.jobs, t0, budget, daemonic_ok)
    return finish(prop, tier, seed, results, len(jobs), cut, t0, a)


def _worker(wid, nw, jobs, q):
    try:
        buf = []
        last = time.time()
        for j in jobs[wid::nw]:
            buf.append(run_case(j))
            if time.time() - last > 0.5:
                q.put((wid, buf))
                buf, last = [], time.time()
        q.put((wid, buf))
        q.put((wid, None))
    finally:
        q.close()
        q.join_thread()
        os._exit(0)


def _parallel(jobs, nw, t0, budget, _):
    """Plain forked (non-daemonic) workers, so that cases may start their own pools."""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    nw = min(nw, len(jobs))
    sys.stdout.flush()
    ps = [ctx.Process(target=_worker, args=(i, nw, jobs, q), daemon=False) for i in range(nw)]
    for p in ps:
        p.start()
    results, alive, cut = [], set(range(nw)), False
    import queue
    while alive:
        try:
            wid, buf = q.get(timeout=1.0)
            if buf is None:
                alive.discard(wid)
            else:
                results += buf
        except queue.Empty:
            for i in list(alive):
                if not ps[i].is_alive():
                    # drain once more before declaring it dead
                    try:
                        while True:
                            wid, buf = q.get(timeout=0.5)
                            if buf is None:
                                alive.discard(wid)
                            else:
                                results += buf
                    except queue.Empty:
                        pass
                    if i in alive:
                        alive.discard(i)
                        results.append(dict(sub="?", idx=-1, status="error", viol=[], checks={}, events=0, cfg={},
                                            desc={"error": "worker %d died" % i}, maxerr={}, t=0, sig="?"))
        if time.time() - t0 > budget:
            cut = True
            break
    for p in ps:
        if p.is_alive():
            p.terminate()
    for p in ps:
        p.join(5)
    results.sort(key=lambda r: (r["sub"], r["idx"]))
    return results, cut


def finish(prop, tier, seed, results, njobs, cut, t0, a):
    known = load_known(prop)
    by = {}
    for r in results:
        by[r["status"]] = by.get(r["status"], 0) + 1
    unlisted, listed = {}, {}
    for r in results:
        for key, msg in r["viol"]:
            k = match_known(known, r["sub"], key)
            if k is not None:
                listed.setdefault(k["id"], [k, 0])[1] += 1
            else:
                unlisted.setdefault("%s/%s" % (r["sub"], key), []).append((r, key, msg))
    checks, maxerr, subs = {}, {}, {}
    for r in results:
        s = subs.setdefault(r["sub"], dict(cases=0, held=0, violation=0, skip=0, timeout=0, error=0, fits=0))
        s["cases"] += 1
        s[r["status"]] += 1
        s["fits"] += r["events"]
        for k, v in r["checks"].items():
            kk = r["sub"] + "/" + k
            checks[kk] = checks.get(kk, 0) + v
        for k, v in r["maxerr"].items():
            kk = r["sub"] + "/" + k
            maxerr[kk] = max(maxerr.get(kk, 0.0), v)
    good = [r for r in results if r["status"] in ("held", "violation") and r["checks"]]
    distinct = len({r["sig"] for r in good})
    nev = sum(checks.values())
    wall = time.time() - t0
    for k in known:
        n = listed.get(k["id"], [k, 0])[1]
        print("KNOWN-FINDING: property=%s %s [%s; seen %d times in this run]" % (prop, k["what"], k["id"], n))
    code = 0
    nviol = 0
    for full, lst in sorted(unlisted.items()):
        r, key, msg = lst[0]
        nviol += len(lst)
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d-s%d.json" % (prop, r["sub"], r["idx"], seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, sub=r["sub"], idx=r["idx"], seed=seed, tier=tier, key=key, message=msg,
                           cfg=r["cfg"], desc=r["desc"],
                           rerun="python3 check.py %s --replay %s" % (prop, path)), f, indent=1, default=str)
        print("  %s: %d case(s); case %d %s: %s" % (full, len(lst), r["idx"], json.dumps(r["cfg"], default=str), msg))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    errs = [r for r in results if r["status"] == "error"]
    if errs:
        for r in errs[:3]:
            print("ERROR in case %s:%s %s\n%s" % (r["sub"], r["idx"], r["cfg"], r["desc"].get("error")))
    if a.v or a.only:
        for i, r in enumerate(results):
            if r["status"] in ("timeout", "error") or r["status"] != "held" and i < 40:
                print(r["status"], r["sub"], r["idx"], r["cfg"], r["desc"])
                for v in r["viol"]:
                    print("    ", v)
        top = sorted(maxerr.items(), key=lambda t: -t[1])[:25]
        print("largest error/tolerance:", [(k, float("%.3g" % v)) for k, v in top])
    floor = getattr(_MOD, "MIN_FRACTION", 0.5)
    inconclusive = None
    if not results or nev == 0:
        inconclusive = "no monitor was evaluated"
    elif not a.only:
        for s in _MOD.SUBS:
            c = subs.get(s)
            if not c or c["held"] + c["violation"] < floor * c["cases"]:
                inconclusive = "workload %s reached too few monitored cases: %s" % (s, c)
    if not a.no_evidence and not a.only:
        write_evidence(prop, tier, seed, results, good, distinct, nev, checks, maxerr, subs, by, nviol, listed,
                       wall, njobs, cut)
    print("%s %s seed=%d: %d cases %s, %d monitor evaluations, %d distinct, %.1fs%s" % (
        prop, tier, seed, len(results), by, nev, distinct, wall, " (cut by time budget)" if cut else ""))
    if code == 0:
        if errs and not a.only and len(errs) > 0.02 * len(results):
            print("INCONCLUSIVE: %d harness errors" % len(errs))
            return 3
        if inconclusive and not cut:
            print("INCONCLUSIVE: " + inconclusive)
            return 3
    return code


def write_evidence(prop, tier, seed, results, good, distinct, nev, checks, maxerr, subs, by, nviol, listed, wall,
                   njobs, cut):
    def few(d, lim):
        """collapse a counter to at most lim entries, from the most specific part of its names"""
        for cut_ in (None, 3, 2, 1, 0):
            out = {}
            for k, v in d.items():
                sub_, sl, key = k.rpartition("/") if "/" in k else ("", "", k)
                kk = k if cut_ is None else sub_ + sl + ".".join(key.split(".")[:cut_]) + (".*" if cut_ else "*")
                out[kk] = out.get(kk, 0) + v
            if len(out) <= lim:
                return out
        return dict(sorted(out.items(), key=lambda t: -t[1])[:lim])

    samples = []
    seen = set()
    step = max(1, len({r["sub"] for r in good}) // 20)
    names_ = sorted({r["sub"] for r in good})[::step]
    for r in good:
        if r["sub"] not in names_ or r["sub"] in seen and len(samples) > 12:
            continue
        if len([1 for s in samples if s["workload"] == r["sub"]]) >= 2:
            continue
        seen.add(r["sub"])
        samples.append(dict(workload=r["sub"], case=r["idx"], config=r["cfg"], observed=r["desc"],
                            monitors=few(r["checks"], 30), outcome=r["status"]))
    vals = {}
    for r in good:
        for k, v in r["cfg"].items():
            vals.setdefault(r["sub"] + "." + k, {})
            vals[r["sub"] + "." + k][str(v)] = vals[r["sub"] + "." + k].get(str(v), 0) + 1
    if len(vals) > 400:
        top = {}
        for k, v in vals.items():
            kk = "*." + k.rpartition(".")[2]
            for a_, b_ in v.items():
                top.setdefault(kk, {})[a_] = top.get(kk, {}).get(a_, 0) + b_
        vals = top
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=len(good), distinct_nontrivial=distinct,
                  rule="%s A case counts when the code under test ran on it and at least one monitor was evaluated "
                       "(not skipped as ill-conditioned, timed out or errored); cases are distinct when workload and "
                       "configuration and data signature differ." % (getattr(_MOD, "RULE", "")),
                  samples=samples, monitor_evaluations=nev, monitors=few(checks, 600), workloads=subs, outcomes=by,
                  planned_cases=njobs, cut_by_budget=cut, configuration_values=vals,
                  worst_error_over_tolerance={k: float("%.3g" % v) for k, v in
                                              sorted(maxerr.items(), key=lambda t: -t[1])[:40]},
                  known_findings_seen={k: v[1] for k, v in listed.items()}),
              assumptions=getattr(_MOD, "ASSUMPTIONS", []) + [
                  "holds on the executions observed, not beyond them",
                  "numpy/scipy/libpysal of the sandbox are trusted"],
              wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))
