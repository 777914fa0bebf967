import hashlib
import io
import json
import os
import random
import subprocess
import sys

from lib import core, fmts, gen, refmk
from lib.cmds import *
from props import P21

ID = "P40"
LEVEL = "exploration"
BUILT = sorted(refmk.BUILDERS)
WRITTEN = tuple(f.ext for f in fmts.W if f.read)
JOBS = len(BUILT) + len(WRITTEN)
RULE = (
    "batches of %d read jobs (files of %d built variants and %d written formats, some damaged), each file read in the checking process before and after random histories (reads, writes, edits of what was read, "
    "encodings, thread look-ups), by name and from a stream, and in fresh processes with other hash seeds, orders, locales and optimisation; patterns read stay alive and are damaged in turn through every "
    "attribute reachable from them; oracle: equal content digests (rows, every thread attribute, metadata) at every reading, unchanged content of every pattern not damaged, options unchanged; non-trivial = "
    "the reader returned a pattern with rows or threads; distinct by digest" % (JOBS, len(BUILT), len(WRITTEN)))
ASSUMPTIONS = ["JPX threads are random colours: the generator is seeded before every read", "a damaged file may be refused, with the same kind of error each time, and is read from streams only (seeking before the start of a file is another error than in memory)"]
MIN_EVENTS = {"reads": 15000, "processes": 80, "history_steps": 3000, "patterns_damaged": 3000}


def cases(tier):
    return 40 if tier == "quick" else 800


def reader_of(ext):
    import pyembroidery as pe

    for t in pe.supported_formats():
        if (ext == t["extension"] or ext in t.get("extensions", ())) and "reader" in t:
            return t["reader"]


def job(seed, k):
    """(extension, bytes, options, whether it was damaged)"""
    rng = random.Random("%s/%s/read" % (seed, k))
    if k < len(BUILT):
        f = refmk.make(BUILT[k], rng)
        ext, data, s = f.ext, f.data, dict(f.settings or {})
    else:
        ext, s = WRITTEN[k - len(BUILT)], {}
        d, nb = gen.design(rng, span=30, box=500, blocks=rng.randint(1, 4))
        p = gen.make_pattern(d, gen.threads(rng, nb + 8, meta=True), {"name": gen.text(rng), "author": gen.text(rng), "keywords": gen.text(rng)})
        random.seed(7)
        data = fmts.write(ext, p, fmts.random_settings(rng, ext))
        if isinstance(data, str):
            data = data.encode("utf8")
    hurt = rng.random() < 0.25 and len(data) > 0
    if hurt:
        data = bytearray(data)
        for _ in range(rng.randint(1, 4)):
            data[rng.randrange(len(data))] = rng.randrange(256)
        if ext == "hus":
            data[4:8] = b"\x40\0\0\0"
        data = bytes(data)
    if rng.random() < 0.3:
        s["trim_distance"] = rng.choice((2.0, 3.0, 10.0))
    if rng.random() < 0.2:
        s["clipping"] = False
    return ext, data, s, hurt


def plain(v, depth=0):
    """everything a value says, without identities"""
    if depth > 6:
        return "..."
    if isinstance(v, dict):
        return sorted((repr(k), plain(w, depth + 1)) for k, w in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(w, depth + 1) for w in v]
    if hasattr(v, "__dict__"):
        return type(v).__name__, plain(vars(v), depth + 1)
    return repr(v)


def content(p):
    return hashlib.blake2b(repr(plain(vars(p))).encode("utf8", "backslashreplace"), digest_size=10).hexdigest()


def read(ext, data, s, hurt, how="stream", scratch=None):
    """(digest or refusal, pattern)"""
    import pyembroidery as pe
    from pyembroidery import EmbPattern

    reader = reader_of(ext)
    random.seed(11)
    try:
        if how == "name":
            path = os.path.join(scratch, "r." + ext)
            with open(path, "wb") as h:
                h.write(data)
            try:
                p = EmbPattern.read_embroidery(reader, path, s)
            finally:
                os.remove(path)
        else:
            text = getattr(reader, "READ_FILE_IN_TEXT_MODE", False)
            f = io.TextIOWrapper(io.BytesIO(data), encoding="utf-8", newline="") if text else io.BytesIO(data)
            p = EmbPattern.read_embroidery(reader, f, s)
    except Exception as e:
        return "%s refused %s" % (ext, type(e).__name__), None
    return "%s %d %d %s" % (ext, len(p.stitches), len(p.threadlist), content(p)), p


def child():
    seed = sys.argv[1]
    order = list(range(JOBS))
    random.Random(os.environ["ORDER"]).shuffle(order)
    print(json.dumps({k: read(*job(seed, k))[0] for k in order}))


def damage(p, rng):
    """changes all that is reachable from the pattern"""
    for r in p.stitches:
        if isinstance(r, list):
            r[:] = [7, 7, 7]
    for t in p.threadlist:
        if t is not None:
            for k in list(vars(t)):
                setattr(t, k, 0x31415 if k == "color" else "spoilt")
    for v in list(p.extras.values()):
        if isinstance(v, dict):
            v.clear()
        elif isinstance(v, list):
            for w in v:
                if isinstance(w, list):
                    w[:] = []
            v[:] = []
    p.extras["name"] = "spoilt"
    p.stitches.append([1, 2, 3])
    p.threadlist.append(None)
    if rng.random() < 0.5:
        del p.stitches[:], p.threadlist[:]
        p.extras.clear()


def case(i, rng, mon):
    seed = "%d" % rng.randrange(1 << 40)
    want, alive = {}, {}
    jobs = {k: job(seed, k) for k in range(JOBS)}

    def again(k, how):
        ext, data, s, hurt = jobs[k]
        s0 = repr(s)
        got, p = read(ext, data, s, hurt, "stream" if hurt else how, mon.scratch)
        mon.count("reads")
        mon.check(repr(s) == s0, "options:" + ext, "reading leaves the options as they were", lambda: (s0, s))
        return got, p

    for k in range(JOBS):
        want[k], p = again(k, "stream")
        if p is not None:
            alive[k] = p
            if p.stitches or p.threadlist:
                mon.sig(want[k])
        else:
            mon.count("refused")
    order = list(range(JOBS))
    for turn in range(3):
        rng.shuffle(order)
        for k in order:
            for _ in range(rng.choice((0, 0, 1, 2))):
                P21.history(rng, mon)
            ext = jobs[k][0]
            got, p = again(k, rng.choice(("stream", "name")))
            mon.check(got == want[k], "history:" + ext, "reading the same %s file again, after other operations, gives another pattern" % ext,
                      lambda: {"job": k, "seed": seed, "options": jobs[k][2], "file": jobs[k][1][:300].hex(), "first": want[k], "again": got})
            if p is not None and rng.random() < 0.7:  # one of two patterns from the same bytes, or from others
                damage(p, rng)
                mon.count("patterns_damaged")
        for k, p in alive.items():
            mon.check(content(p) == want[k].split()[-1], "shared:" + jobs[k][0], "a pattern that was read changed when others were read, edited or written", lambda: {"job": k, "seed": seed, "options": jobs[k][2]})
        for k in rng.sample(sorted(alive), min(12, len(alive))):
            damage(alive.pop(k), rng)
            mon.count("patterns_damaged")
    for env in P21.ENVIRONMENTS:
        e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "LC_ALL", "LANG")}
        e.update(env)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        r = subprocess.run([sys.executable, "-c", "import sys; sys.pycache_prefix = '/nonexistent/verif-no-bytecode'; sys.path[:0] = %r; from props import P40; P40.child()" % [core.REPO, core.VERIF], seed],
                           env=e, cwd=mon.scratch, capture_output=True, text=True, timeout=600)
        mon.count("processes")
        mon.check(r.returncode == 0, "process", "reading works in a fresh process", lambda: (env, r.stderr[-1500:]))
        got = json.loads(r.stdout.splitlines()[-1])
        for k in range(JOBS):
            mon.count("reads")
            mon.check(got[str(k)] == want[k], "process:" + jobs[k][0], "reading the same file in another process gives the same pattern",
                      lambda: {"environment": env, "job": k, "seed": seed, "options": jobs[k][2], "here": want[k], "there": got[str(k)]})
    mon.sample({"jobs": [want[k] for k in range(6)], "environments": len(P21.ENVIRONMENTS)})
