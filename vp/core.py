"""The runner: a property is a set of facets; a facet is a Hypothesis strategy
producing a plain JSON-able case, and a function deciding that case against an
oracle.  Everything a case needs is inside the case, so the shrunk failing case
written to disk is a complete replay that bypasses Hypothesis."""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import warnings
import logging
import multiprocessing as mp

from . import env


class Violation(AssertionError):
    """The oracle disagrees with the code."""


class _Skip(Exception):
    """The case is outside the property's domain (counted as trivial)."""


class _Abort(BaseException):
    """Stop shrinking: the time budget for shrinking is spent."""


class Ctx(object):
    """Bookkeeping for one case."""

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True

    def skip(self, why):
        self.labels.append("skipped: " + why)
        raise _Skip()

    def scratch(self):
        return _scratch_dir()


_SCRATCH = [None]


def _scratch_dir():
    """A directory of this process, emptied for every case, removed at exit."""
    import tempfile
    import shutil
    import atexit
    if _SCRATCH[0] is None or _SCRATCH[0][1] != os.getpid():
        d = tempfile.mkdtemp(prefix="vp-scratch-")
        _SCRATCH[0] = (d, os.getpid())
        atexit.register(shutil.rmtree, d, True)
    d = _SCRATCH[0][0]
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p):
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)
    return d


def drop_scratch():
    import shutil
    if _SCRATCH[0] is not None and _SCRATCH[0][1] == os.getpid():
        shutil.rmtree(_SCRATCH[0][0], ignore_errors=True)
        _SCRATCH[0] = None


class Facet(object):
    def __init__(self, name, strategy, check, quick, thorough=None, shards=2, rule=""):
        self.name = name
        self.strategy = strategy          # a zero-argument function returning a strategy
        self.check = check                # check(case, ctx)
        self.quick = quick                # number of generated cases (total over shards)
        self.thorough = thorough if thorough is not None else 25 * quick
        self.shards = shards
        self.rule = rule


class Check(object):
    def __init__(self, pid):
        self.pid = pid
        self.facets = []

    def facet(self, strategy, quick, thorough=None, shards=2, rule="", name=None):
        def deco(fn):
            self.facets.append(Facet(name or fn.__name__, strategy, fn, quick, thorough, shards, rule))
            return fn
        return deco


def _quiet():
    warnings.simplefilter("ignore")
    logging.disable(logging.CRITICAL)
    import numpy as np
    np.seterr(all="ignore")


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def run_case(facet, case, ctx):
    """Run one case.  Returns None, or the exception describing the violation."""
    import io
    import contextlib
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            facet.check(case, ctx)
    except _Skip:
        return None
    except Exception as e:  # any exception on a valid input is a violation
        if type(e).__module__.startswith("hypothesis"):
            raise
        return e
    return None


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ["%s:%s %s" % (f.filename, f.lineno, f.name) for f in tb[-6:]]
    return {"type": type(e).__name__, "message": str(e)[:4000], "where": where}


def _run_shard(args):
    pid, fname, shard, nshards, tier, seed, shrink_s = args
    out = {"facet": fname, "shard": shard, "evaluations": 0, "labels": {}, "keys": [],
           "samples": [], "failure": None, "error": None, "trivial": 0}
    t0 = time.time()
    try:
        _quiet()
        mod = importlib.import_module("checks." + pid.lower())
        facet = [f for f in mod.CHECK.facets if f.name == fname][0]
        from hypothesis import given, settings, HealthCheck, Phase, seed as hseed, Verbosity
        total = facet.quick if tier == "quick" else facet.thorough
        n = max(1, total // nshards + (1 if shard < total % nshards else 0))
        state = {"best": None, "deadline": None}
        keys = set()

        def body(case):
            if state["deadline"] is not None and time.time() > state["deadline"]:
                raise _Abort()
            case = json.loads(json.dumps(case))
            ctx = Ctx()
            e = run_case(facet, case, ctx)
            if state["best"] is None:
                out["evaluations"] += 1
                for l in set(ctx.labels):
                    out["labels"][l] = out["labels"].get(l, 0) + 1
                if ctx.nontrivial:
                    k = _key(case)
                    if k not in keys:
                        keys.add(k)
                        if len(out["samples"]) < 2 and len(json.dumps(case)) < 3000:
                            out["samples"].append(case)
                else:
                    out["trivial"] += 1
            if e is not None:
                size = len(json.dumps(case))
                if state["best"] is None:
                    state["deadline"] = time.time() + shrink_s
                if state["best"] is None or size <= state["best"][0]:
                    state["best"] = (size, case, _describe(e))
                raise Violation(type(e).__name__)

        hs = int(hashlib.sha1(("%s/%s/%d/%d" % (pid, fname, shard, seed)).encode()).hexdigest()[:12], 16)
        test = hseed(hs)(settings(
            max_examples=n, database=None, deadline=None, derandomize=False,
            report_multiple_bugs=False, verbosity=Verbosity.quiet, print_blob=False,
            suppress_health_check=list(HealthCheck),
            phases=(Phase.generate, Phase.shrink))(given(facet.strategy())(body)))
        import io
        import contextlib
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                test()
        except _Abort:
            pass
        except BaseException as e:
            if state["best"] is None:
                raise
        if state["best"] is not None:
            out["failure"] = {"case": state["best"][1], "violation": state["best"][2]}
        out["keys"] = sorted(keys)
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        drop_scratch()
    out["wall_s"] = time.time() - t0
    return out


def load_findings(pid):
    p = os.path.join(env.VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--facet")
    ap.add_argument("--shrink", type=float, default=20.)
    ap.add_argument("--scale", type=float, default=1.)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--stats", action="store_true")
    a = ap.parse_args(argv)
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    _quiet()
    try:
        mod = importlib.import_module("checks." + pid.lower())
    except BaseException:
        traceback.print_exc()
        sys.exit(3)

    if a.replay:
        r = json.load(open(a.replay))
        facet = [f for f in mod.CHECK.facets if f.name == r["facet"]][0]
        e = run_case(facet, r["case"], Ctx())
        drop_scratch()
        if e is None:
            print("replay: the property holds on this case")
            sys.exit(0)
        traceback.print_exception(type(e), e, e.__traceback__)
        print("VIOLATION property=%s replay=%s" % (pid, a.replay))
        sys.exit(1)

    # known findings: replay each listed case on its own; it never suppresses another case
    findings = load_findings(pid)
    violations = []
    errors = []
    for f in findings:
        facet = [x for x in mod.CHECK.facets if x.name == f["facet"]][0]
        e = run_case(facet, f["case"], Ctx())
        if e is not None:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))

    jobs = []
    for f in mod.CHECK.facets:
        if a.facet and f.name != a.facet:
            continue
        if a.scale != 1.:
            f.quick = max(1, int(f.quick * a.scale))
        ns = f.shards if tier == "quick" else 8
        ns = max(1, min(ns, f.quick))
        for s in range(ns):
            jobs.append((pid, f.name, s, ns, tier, seed, a.shrink))
    results = []
    if a.jobs <= 1 or len(jobs) == 1:
        results = [_run_shard(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(min(a.jobs, len(jobs)), maxtasksperchild=1) as pool:
            results = list(pool.imap(_run_shard, jobs, chunksize=1))
    by = {}
    keys = set()
    samples = []
    for r in results:
        b = by.setdefault(r["facet"], {"evaluations": 0, "labels": {}, "trivial": 0, "nontrivial": set(), "wall_s": 0.})
        b["evaluations"] += r["evaluations"]
        b["trivial"] += r["trivial"]
        b["wall_s"] = max(b["wall_s"], r.get("wall_s", 0))
        for l, n in r["labels"].items():
            b["labels"][l] = b["labels"].get(l, 0) + n
        b["nontrivial"].update(r["keys"])
        keys.update(r["facet"] + k for k in r["keys"])
        if r["samples"] and len([s for s in samples if s["facet"] == r["facet"]]) < 1:
            samples.append({"facet": r["facet"], "case": r["samples"][-1]})
        if r["error"]:
            errors.append((r["facet"], r["shard"], r["error"]))
        if r["failure"]:
            violations.append((r["facet"], r["shard"], r["failure"]))
    # one violation per facet, the smallest
    best = {}
    for fn, sh, fl in violations:
        if fn not in best or len(json.dumps(fl["case"])) < len(json.dumps(best[fn]["case"])):
            best[fn] = fl
    rdir = os.path.join(env.VERIF, "replays")
    lines = []
    for fn, fl in sorted(best.items()):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, fn))
        with open(path, "w") as fh:
            json.dump({"property": pid, "facet": fn, "seed": seed, "tier": tier,
                       "case": fl["case"], "violation": fl["violation"],
                       "replay_cmd": "./check.sh %s --replay %s" % (pid, path)}, fh, indent=1)
        lines.append((fn, path, fl["violation"]))
    evals = sum(b["evaluations"] for b in by.values())
    rule = "; ".join("%s: %s" % (f.name, f.rule) for f in mod.CHECK.facets if f.rule and f.name in by)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(keys),
                       "rule": rule or "every generated case reaching the oracle",
                       "samples": samples,
                       "facets": {k: {"evaluations": b["evaluations"],
                                      "distinct_nontrivial": len(b["nontrivial"]),
                                      "trivial": b["trivial"],
                                      "labels": dict(sorted(b["labels"].items())),
                                      "wall_s": round(b["wall_s"], 2)} for k, b in sorted(by.items())}},
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2),
          "violations": len(lines)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, sort_keys=True)
    for fn, path, v in lines:
        print("facet %s: %s: %s" % (fn, v["type"], v["message"][:1500]))
        for w in v["where"]:
            print("    " + w)
    for fn, path, v in lines:
        print("VIOLATION property=%s replay=%s" % (pid, path))
    if a.stats:
        for k, b in sorted(by.items()):
            print("%-28s n=%-6d nt=%-6d triv=%-5d %.1fs %s" % (
                k, b["evaluations"], len(b["nontrivial"]), b["trivial"], b["wall_s"],
                dict(sorted(b["labels"].items()))))
    if lines:
        sys.exit(1)
    if errors:
        for fn, sh, e in errors:
            sys.stderr.write("HARNESS ERROR in facet %s shard %d\n%s\n" % (fn, sh, e))
        sys.exit(3)
    print("OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (pid, evals, len(keys), time.time() - t0))
    sys.exit(0)


# -- comparison helpers ------------------------------------------------------

def close(a, b, tol=1e-9, what="", rel=True):
    """Absolute difference at most tol * max(1, |b|_inf)."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (what, a.shape, b.shape))
    if a.size == 0:
        return
    if not np.isfinite(a).all():
        raise Violation("%s: not finite: %s" % (what, a.tolist()))
    d = np.max(np.abs(a - b))
    s = max(1., float(np.max(np.abs(b)))) if rel else 1.
    if not d <= tol * s:
        raise Violation("%s: differs by %.3g (tolerance %.3g)\ngot      %s\nexpected %s" % (
            what, d, tol * s, np.array2string(a, precision=12), np.array2string(b, precision=12)))


def require(cond, what):
    if not cond:
        raise Violation(what)
