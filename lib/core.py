"""Monitoring runtime shared by every property: case scheduling, event counters, verdicts, evidence.

A property module (props/<ID>.py) provides
  ID, TITLE, RULE, LEVEL, ASSUMPTIONS
  cases(tier) -> number of cases
  case(i, rng, mon) -> runs the real code for case i under the monitor `mon`
  optional: once(mon) -> executed once per run (fixed / exhaustive part)
  optional: MIN_EVENTS {counter: minimum}: below it the run is inconclusive
"""
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_LIMIT = 60.0  # CPU seconds; a normal case takes milliseconds
WORKERS = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
FRACTION = float(os.environ.get("VERIF_FRACTION") or 1)  # development only (tools/mutate.py): part of the cases
OUT = os.environ.get("VERIF_OUT") or VERIF


class Violation(Exception):
    def __init__(self, key, message, detail=None):
        Exception.__init__(self, message)
        self.key = key
        self.message = message
        self.detail = detail


class Runaway(BaseException):
    pass


class EnvError(Exception):
    pass


class Monitor:
    """Collects what was observed and raises on the first refuting observation of a case."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.counters = {}
        self.sigs = set()
        self.samples = []
        self.scratch = None
        self.context = []

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def sig(self, *parts):
        h = hashlib.blake2b(repr(parts).encode("utf8", "backslashreplace"), digest_size=8).digest()
        self.sigs.add(h)

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def note(self, *what):
        """remember context that a violation report should carry"""
        self.context.append(what)
        if len(self.context) > 30:
            del self.context[0]

    def fail(self, key, message, detail=None):
        raise Violation(key, message, detail)

    def check(self, cond, key, message, detail=None):
        self.count("assertions")
        if not cond:
            raise Violation(key, message, detail() if callable(detail) else detail)


def case_seed(prop, seed, i):
    h = hashlib.blake2b(("%s/%s/%s" % (prop, seed, i)).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big")


def _alarm(signum, frame):
    raise Runaway("cpu limit")


def clip(o, n=6000):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[: n // 2] + " ...<%d chars>... " % (len(s) - n) + s[-n // 2 :]


def run_one(mod, i, mon):
    """returns None, or a dict describing the violation observed in case i ('once' for the fixed part)"""
    mon.context = []
    s = case_seed(mod.ID, mon.seed, i)
    rng = random.Random(s)
    random.seed(s ^ 0x5EED)
    limit = getattr(mod, "CPU_LIMIT", CASE_CPU_LIMIT)
    if i == "once":
        limit = getattr(mod, "ONCE_CPU_LIMIT", 300.0)
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, limit)
    try:
        if i == "once":
            mod.once(mon)
        else:
            mod.case(i, rng, mon)
    except Violation as v:
        return {"key": v.key, "message": v.message, "detail": clip(v.detail), "case": i, "context": clip(mon.context)}
    except Runaway:
        return {
            "key": "runaway",
            "message": "the operation did not finish within %.0f CPU seconds (cases normally take milliseconds)" % limit,
            "detail": traceback.format_exc()[-3000:],
            "case": i,
            "context": clip(mon.context),
        }
    except MemoryError:
        return {
            "key": "runaway-memory",
            "message": "the operation exhausted the memory budget",
            "detail": traceback.format_exc()[-3000:],
            "case": i,
            "context": clip(mon.context),
        }
    except EnvError:
        raise
    except OSError as e:
        import errno

        if e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EROFS, errno.EDQUOT):
            raise EnvError(str(e))
        return exc_violation(i, mon, e)
    except Exception as e:
        return exc_violation(i, mon, e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return None


def exc_violation(i, mon, e):
    return {
        "key": "exception:" + type(e).__name__,
        "message": "an operation that must succeed failed: %s: %s" % (type(e).__name__, clip(str(e), 300)),
        "detail": traceback.format_exc()[-4000:],
        "case": i,
        "context": clip(mon.context),
    }


def _worker(args):
    modname, indices, tier, seed, known = args
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    mod = importlib.import_module(modname)
    mon = Monitor(tier, seed)
    bad = []
    knownhits = {}
    ran = 0
    from lib import scratch

    try:
        with scratch.scratch_dir() as d:
            mon.scratch = d
            for i in indices:
                v = run_one(mod, i, mon)
                ran += 1
                if v is not None:
                    if v["key"] in known:
                        knownhits[v["key"]] = knownhits.get(v["key"], 0) + 1
                        continue
                    bad.append(v)
                    if len(bad) >= 3:
                        break
    except EnvError as e:
        return {"env": str(e)}
    except OSError as e:
        return {"env": "%s" % e}
    return {
        "ran": ran,
        "bad": bad,
        "counters": mon.counters,
        "sigs": list(mon.sigs),
        "samples": mon.samples,
        "known": knownhits,
    }


def load_known(prop):
    """open findings: lines `open: property=<id> key=<mechanism> <what fails>`"""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("open:"):
                continue
            parts = line.split(None, 3)
            p = parts[1].split("=", 1)[1]
            k = parts[2].split("=", 1)[1]
            if p == prop:
                out[k] = parts[3] if len(parts) > 3 else ""
    return out


def run(prop, tier, seed, replay=None):
    t0 = time.time()
    modname = "props." + prop
    mod = importlib.import_module(modname)
    known = load_known(prop)
    if replay is not None:
        mon = Monitor(replay["tier"], replay["seed"])
        from lib import scratch

        with scratch.scratch_dir() as d:
            mon.scratch = d
            v = run_one(mod, replay["case"], mon)
        if v is None:
            print("replay: case %r of %s holds" % (replay["case"], prop))
            return 0
        print(json.dumps(v, indent=1))
        print("VIOLATION property=%s replay=%s" % (prop, replay.get("path", "-")))
        return 1
    n = max(1, int(mod.cases(tier) * FRACTION))
    idx = list(range(n))
    rr = list(range(n))
    random.Random(1).shuffle(rr)
    nchunks = WORKERS * 4
    chunks = [rr[k::nchunks] for k in range(nchunks)]
    jobs = [(modname, c, tier, seed, set(known)) for c in chunks if c]
    if hasattr(mod, "once"):
        jobs.insert(0, (modname, ["once"], tier, seed, set(known)))
    ctx = multiprocessing.get_context("fork")
    results = []
    from concurrent.futures import ProcessPoolExecutor, as_completed
    from concurrent.futures.process import BrokenProcessPool

    try:
        with ProcessPoolExecutor(WORKERS, mp_context=ctx) as pool:
            futures = [pool.submit(_worker, j) for j in jobs]
            for fu in as_completed(futures):
                r = fu.result()
                results.append(r)
                if r.get("bad"):
                    pool.shutdown(wait=False, cancel_futures=True)
                    break
    except BrokenProcessPool as e:
        if not any(r.get("bad") for r in results):
            print("INCONCLUSIVE property=%s a worker process died: %s" % (prop, e))
            return 3
    for r in results:
        if "env" in r:
            print("INCONCLUSIVE property=%s environment: %s" % (prop, r["env"]))
            return 3
    bad = [v for r in results for v in r["bad"]]
    counters = {}
    sigs = set()
    samples = []
    knownhits = {}
    ran = 0
    for r in results:
        ran += r["ran"]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(r["sigs"])
        samples.extend(r["samples"])
        for k, v in r["known"].items():
            knownhits[k] = knownhits.get(k, 0) + v
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": ran,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": samples[:3] or ["(see counters)"],
            "observed": counters,
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(bad),
    }
    if knownhits:
        ev["coverage"]["known_findings_hit"] = knownhits
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    for k, what in sorted(known.items()):
        if k in knownhits:
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if bad:
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for v in bad:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            path = os.path.join(rdir, "%s-%s-%s-%s.json" % (prop, tier, seed, v["case"]))
            rec = dict(v)
            rec.update({"property": prop, "tier": tier, "seed": seed})
            with open(path, "w") as f:
                json.dump(rec, f, indent=1, default=repr)
            print("  case %s: [%s] %s" % (v["case"], v["key"], clip(v["message"], 600)))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    for name, minimum in getattr(mod, "MIN_EVENTS", {}).items():
        if FRACTION >= 1 and counters.get(name, 0) < minimum:
            print(
                "INCONCLUSIVE property=%s the monitor saw %d %r events, needs %d"
                % (prop, counters.get(name, 0), name, minimum)
            )
            return 3
    top = ", ".join("%s=%d" % kv for kv in sorted(counters.items(), key=lambda kv: -kv[1])[:8])
    print(
        "HELD property=%s tier=%s seed=%s on %d executions (%d distinct non-trivial); %s; %.1fs"
        % (prop, tier, seed, ran, len(sigs), top, time.time() - t0)
    )
    return 0
