import hashlib
import json
import os
import random
import subprocess
import sys

from lib import core, fmts, gen, refmk
from lib.cmds import *

ID = "P21"
LEVEL = "exploration"
JOBS = 40
RULE = (
    "batches of %d write jobs (random designs with threads and metadata, every writer, random options), each executed in the checking process before and after random histories "
    "(other writes, refused writes, whole and damaged reads, encodings, edits and rewrites of what was read, thread look-ups) and in fresh processes with other hash seeds, orders, clocks, random seeds, "
    "environments and optimisation; oracle: equal digests; non-trivial = the file was written in at least 4 settings; distinct by digest" % JOBS)
ASSUMPTIONS = ["designs have a thread for every colour block (threads made up for missing ones are random)", "the date of JEF files is given"]
MIN_EVENTS = {"writes": 10000, "processes": 60, "history_steps": 2000}


def cases(tier):
    return 40 if tier == "quick" else 640


def job(seed, k):
    rng = random.Random("%s/%s" % (seed, k))
    ext = fmts.W[k % len(fmts.W)].ext
    d, nb = gen.design(rng, span=rng.choice((10, 60, 200)) if ext != "png" else 6, blocks=None if ext != "png" else rng.randint(1, 3), mode=rng.choice(("int", "half")) if ext not in ("pec", "pes", "csv") else "int", box=3000 if ext != "png" else 60,
                       sequins=rng.random() < 0.2, speeds=rng.random() < 0.2, needles=rng.random() < 0.2)
    p = gen.make_pattern(d, gen.threads(rng, 120, meta=True, pool=rng.choice(("ascii", "mix"))),
                         {"name": gen.text(rng), "author": gen.text(rng), "keywords": gen.text(rng), "category": gen.text(rng), "comments": gen.text(rng)})
    s = fmts.random_settings(rng, ext)
    if rng.random() < 0.3:
        s.update(tie_on=True, tie_off=True)
    if rng.random() < 0.2:
        s.update(scale=2, rotate=30)
    return ext, p, s


def digest(seed, k, twice=False):
    ext, p, s = job(seed, k)
    out = []
    for _ in range(2 if twice else 1):
        try:
            d = fmts.write(ext, p, s)
            b = d.encode("utf8") if isinstance(d, str) else bytes(d)
            h = hashlib.blake2b(b, digest_size=10).hexdigest()
        except Exception as e:
            h = "refused " + type(e).__name__
        out.append(ext + " " + h)
    return out if twice else out[0]


ENVIRONMENTS = (
    {"PYTHONHASHSEED": "0", "TZ": "UTC", "LANG": "C", "ORDER": "1"},
    {"PYTHONHASHSEED": "1", "TZ": "Asia/Tokyo", "LANG": "C.UTF-8", "ORDER": "2", "CLOCK": "40000000", "HOME": "/nonexistent", "USER": "somebody"},
    {"PYTHONHASHSEED": "77", "TZ": "America/Lima", "LC_ALL": "C", "ORDER": "3", "CLOCK": "-50000", "PYTHONOPTIMIZE": "1"},
    {"PYTHONHASHSEED": "4242", "ORDER": "4", "CLOCK": "3600", "PYTHONOPTIMIZE": "2", "COLUMNS": "40", "PYTHONUTF8": "1"},
)


def child():
    seed, n = sys.argv[1], int(sys.argv[2])
    shift = float(os.environ.get("CLOCK", "0"))
    if shift:
        import datetime as dt
        import time

        real = time.time
        time.time = lambda: real() + shift
        lt, gt = time.localtime, time.gmtime
        time.localtime = lambda t=None: lt(real() + shift if t is None else t)
        time.gmtime = lambda t=None: gt(real() + shift if t is None else t)

        class Shifted(dt.datetime):
            @classmethod
            def now(cls, tz=None):
                return dt.datetime.fromtimestamp(real() + shift, tz)

            @classmethod
            def today(cls):
                return dt.datetime.fromtimestamp(real() + shift)

            @classmethod
            def utcnow(cls):
                return dt.datetime.utcfromtimestamp(real() + shift)

        class ShiftedDate(dt.date):
            @classmethod
            def today(cls):
                return dt.date.fromtimestamp(real() + shift)

        dt.datetime, dt.date = Shifted, ShiftedDate
    order = list(range(n))
    which = int(os.environ["ORDER"])
    random.Random(which).shuffle(order)
    if which == 1:
        order = order[::-1]
    random.seed(which)
    print(json.dumps({k: digest(seed, k) for k in order}))


def history(rng, mon):
    """one thing the process does between two writes"""
    import pyembroidery as pe
    from pyembroidery import EmbMatrix, EmbThread
    from pyembroidery import EmbThreadHus, EmbThreadJef, EmbThreadPec, EmbThreadSew, EmbThreadShv

    mon.count("history_steps")
    k = rng.randrange(8)
    try:
        if k == 0:  # another file
            f = refmk.make(rng.choice(sorted(refmk.BUILDERS)), rng)
            path = os.path.join(mon.scratch, "h." + f.ext)
            data = bytearray(f.data)
            if rng.random() < 0.5 and data:
                for _ in range(rng.randint(1, 5)):
                    data[rng.randrange(len(data))] = rng.randrange(256)
                if f.ext == "hus":
                    data[4:8] = b"\x40\0\0\0"
            with open(path, "wb") as h:
                h.write(data)
            p = pe.read(path, f.settings)
            for t in p.threadlist:
                if t is not None:
                    t.color = 0x123456
                    t.description = "changed"
        elif k == 1:  # another design, other options
            ext, p, s = job(rng.random(), rng.randrange(len(fmts.W)))
            if ext == "png" and rng.random() < 0.8:
                return
            fmts.write(ext, p, s)
        elif k == 2:  # a write that is refused half way
            p = gen.make_pattern([[0, 0, STITCH], [10, 10, STITCH], [5000, 9000, STITCH], [50, 0, STITCH], [0, 0, END]], gen.threads(rng, 1))
            p.stitches[3][rng.choice((0, 1))] = rng.choice((float("nan"), "x", None))
            fmts.write(rng.choice([w for w in fmts.W if w.ext != "png"]).ext, p, {})
        elif k == 3:
            p = gen.make_pattern(gen.soup(rng, 40), gen.threads(rng, 9))
            p.get_normalized_pattern({"max_stitch": 50, "max_jump": 50, "needle_count": 3})
        elif k == 4:
            for m in (EmbThreadHus, EmbThreadJef, EmbThreadPec, EmbThreadSew, EmbThreadShv):
                t = EmbThread("#%06x" % rng.randrange(1 << 24))
                t.find_nearest_color_index(m.get_thread_set())
        elif k == 5:  # a write of a pattern that was read, edited and written again
            p = gen.make_pattern(gen.design(rng, span=30)[0], gen.threads(rng, 20))
            ext = rng.choice(("dst", "pes", "jef", "vp3", "u01", "tbf", "csv"))
            q = fmts.read(ext, fmts.write(ext, p, {}))
            q.threadlist[:] = q.threadlist[::-1]
            q.stitch_abs(3, 3)
            for t in q.threadlist:
                if t is not None:
                    t.color ^= 0xFFFFFF
            fmts.write(ext, q, {})
        elif k == 6:
            for c in ("red", "#123", "hsl(0, 50%, 50%)", "rgb(1, 2, 3)", "nocolor", 7, "random"):
                EmbThread(c)
            random.seed(rng.random())
        else:
            p = gen.make_pattern(gen.soup(rng, 30), gen.threads(rng, 9))
            p.transform(EmbMatrix.get_rotate(30))
            p.get_stable_pattern()
            list(p.get_as_stitchblock())
    except Exception:
        mon.count("history_errors")


def case(i, rng, mon):
    seed = "%d" % rng.randrange(1 << 40)
    want = {}
    for k in range(JOBS):
        want[k] = digest(seed, k)
        mon.count("writes")
    order = list(range(JOBS))
    rng.shuffle(order)
    for k in order:
        for _ in range(rng.choice((0, 1, 2, 4))):
            history(rng, mon)
        got = digest(seed, k, True)
        mon.count("writes", 2)
        mon.check(got == [want[k]] * 2, "history", "writing the same design again, after other operations, gives the same bytes",
                  lambda: {"job": k, "seed": seed, "settings": job(seed, k)[2], "first": want[k], "again": got})
    for env in ENVIRONMENTS:
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "LC_ALL", "LANG")}
        e.update(env)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        r = subprocess.run([sys.executable, "-c", "import sys; sys.pycache_prefix = '/nonexistent/verif-no-bytecode'; sys.path[:0] = %r; from props import P21; P21.child()" % [core.REPO, core.VERIF], seed, str(JOBS)],
                           env=e, cwd=mon.scratch, capture_output=True, text=True, timeout=600)
        mon.count("processes")
        mon.check(r.returncode == 0, "process", "writing works in a fresh process", lambda: (env, r.stderr[-1500:]))
        got = json.loads(r.stdout.splitlines()[-1])
        for k in range(JOBS):
            mon.count("writes")
            mon.check(got[str(k)] == want[k], "process", "writing the same design in another process gives the same bytes",
                      lambda: {"environment": env, "job": k, "seed": seed, "settings": job(seed, k)[2], "here": want[k], "there": got[str(k)]})
    for k in range(JOBS):
        if "refused" in want[k]:
            mon.count("refused")
        else:
            mon.sig(want[k])
    mon.sample({"jobs": [want[k] for k in range(6)], "environments": len(ENVIRONMENTS)})
