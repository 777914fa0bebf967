import gc
import importlib
import io
import os
import random
import warnings

from lib import fmts, gen, refmk
from lib.cmds import *

ID = "P35"
LEVEL = "exploration"
READ = {
    "pes": "Pes", "dst": "Dst", "exp": "Exp", "jef": "Jef", "vp3": "Vp3", "10o": "A10o", "100": "A100", "bro": "Bro", "dat": "Dat", "dsb": "Dsb", "dsz": "Dsz", "emd": "Emd", "exy": "Exy", "e00": "Exy",
    "e01": "Exy", "e02": "Exy", "fxy": "Fxy", "f00": "Fxy", "f01": "Fxy", "f02": "Fxy", "gt": "Gt", "hus": "Hus", "inb": "Inb", "jpx": "Jpx", "ksm": "Ksm", "max": "Max", "mit": "Mit", "new": "New",
    "pcd": "Pcd", "pcm": "Pcm", "pcq": "Pcq", "pcs": "Pcs", "pec": "Pec", "phb": "Phb", "phc": "Phc", "sew": "Sew", "shv": "Shv", "stc": "Stc", "stx": "Stx", "tap": "Tap", "tbf": "Tbf", "u01": "U01",
    "u00": "U01", "u02": "U01", "xxx": "Xxx", "zhs": "Zhs", "zxy": "Zxy", "z00": "Zxy", "z01": "Zxy", "z02": "Zxy", "gcode": "Gcode", "g-code": "Gcode", "ngc": "Gcode", "nc": "Gcode", "g": "Gcode",
    "col": "Col", "edr": "Edr", "inf": "Inf", "pmv": "Pmv", "csv": "Csv", "json": "Json", "spx": "Spx",
}
ALIAS = {}
for _e, _m in READ.items():
    ALIAS.setdefault(_m, []).append(_e)
KINDS = ("read", "write", "convert", "refuse")
RULE = (
    "every documented extension (%d) in random letter case under hostile file names: files of all formats read through every entry point (function, constructor, method, stream, reader module), designs written "
    "through every entry point over missing, shorter and longer files, conversions between all formats, and refusals (unknown and missing types and files, read-only types, damaged files, designs a format "
    "cannot hold); oracle: all entry points agree with the module of that format used on a memory stream, convert equals read then write, refused operations raise (or give None where documented), and a watch "
    "on the directory and the process: no other file made or changed, no descriptor left open (also while the error is still held), streams left open; non-trivial = an operation compared in at least two ways or a refusal; distinct by bytes and name" % len(READ))
ASSUMPTIONS = [
    "only the main extension of a format is written (the others are for reading); a file of unknown type reads as nothing (None)",
    "random choices of the library (colours of threads it makes up) are given the same seed; the date of JEF files is given",
]
MIN_EVENTS = {"reads": 5000, "writes": 5000, "conversions": 800, "refusals": 1000}


def cases(tier):
    return 14000 if tier == "quick" else 250000


def case_of(rng, ext):
    r = rng.random()
    if r < 0.4:
        return ext
    if r < 0.6:
        return ext.upper()
    return "".join(rng.choice((c.upper(), c.lower())) for c in ext)


def fname(rng, ext, where):
    stem = rng.choice(("design", "a b", "x.y", "f.dst", "logo.pes.old", "Ünï", "..a", "a.b.c.d", "2024.03.01.final.pes", "v1.0-final", "DST", "-x", "a'b", "percent%20", "long" * 20))
    d = os.path.join(where, rng.choice(("", "", "sub.dir", "sub.pes")))
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, "%s.%s" % (stem, case_of(rng, ext)))


def tree(where):
    out = {}
    for d, _, fs in os.walk(where):
        for f in fs:
            with open(os.path.join(d, f), "rb") as h:
                out[os.path.join(d, f)] = h.read()
    return out


def fds():
    return sorted(os.listdir("/proc/self/fd"))


def state(p):
    if p is None:
        return None
    return ([tuple(r) for r in p.stitches], [t and (t.color, t.description, t.catalog_number, t.details, t.brand, t.chart, t.weight) for t in p.threadlist],
            {k: (repr(v) if not isinstance(v, (str, int, float, bytes, type(None))) else v) for k, v in p.extras.items()})


def module(kind, name_):
    return importlib.import_module("pyembroidery.%s%s" % (name_, kind))


class Watch:
    """nothing but the files named may change, no descriptor may stay open"""

    def __init__(self, mon, where, what, touched=()):
        self.mon, self.where, self.what, self.touched = mon, where, what, set(touched)

    def __enter__(self):
        self.before, self.fd = tree(self.where), fds()
        self.w = warnings.catch_warnings(record=True)
        self.log = self.w.__enter__()
        warnings.simplefilter("always", ResourceWarning)
        return self

    def __exit__(self, *exc):
        now = fds()
        self.w.__exit__(None, None, None)
        leaks = [str(x.message) for x in self.log if issubclass(x.category, ResourceWarning)]
        self.mon.check(now == self.fd and not leaks, "left-open", "%s leaves no file open" % self.what, lambda: {"before": self.fd, "after": now, "warnings": leaks})
        after = tree(self.where)
        for k in set(self.before) | set(after):
            if k not in self.touched:
                self.mon.check(self.before.get(k) == after.get(k), "other-file", "%s leaves %s as it was" % (self.what, os.path.basename(k)),
                               lambda: {"before": self.before.get(k, b"")[:80], "after": after.get(k, b"")[:80], "existed": k in self.before, "exists": k in after})
        return False


def attempt(f):
    """(result, error), the error kept alive with its frames"""
    random.seed(4)
    try:
        return f(), None
    except Exception as e:
        return None, e


def sample_file(rng):
    """a file of some format: extension, bytes, settings"""
    if rng.random() < 0.25:
        ext = rng.choice(("csv", "json", "col", "edr", "inf", "gcode", "pmv", "u01", "dst"))
        p, s = pattern(rng, ext)
        data = fmts.write(ext, p, s)
        return ext, data.encode("utf8") if isinstance(data, str) else data, None
    f = refmk.make(rng.choice(sorted(refmk.BUILDERS)), rng)
    return f.ext, f.data, f.settings


def pattern(rng, ext):
    png = ext == "png"
    d, nb = gen.design(rng, span=6 if png else rng.choice((10, 60, 150)), box=50 if png else 3000, mode="int", sequins=rng.random() < 0.2, speeds=rng.random() < 0.2)
    p = gen.make_pattern(d, gen.threads(rng, 120, meta=rng.random() < 0.5), {"name": gen.text(rng), "author": gen.text(rng)} if rng.random() < 0.6 else None)
    return p, fmts.random_settings(rng, ext)


def source(mod, data):
    return io.StringIO(data.decode("utf8"), newline="") if getattr(mod, "READ_FILE_IN_TEXT_MODE", False) else io.BytesIO(data)


def do_read(rng, mon):
    import pyembroidery as pe
    from pyembroidery import EmbPattern

    ext, data, settings = sample_file(rng)
    if ext not in READ:
        raise KeyError(ext)
    if rng.random() < 0.15:
        data = data[:rng.randrange(len(data) + 1)]
    mod = module("Reader", READ[ext])
    spelled = rng.choice(ALIAS[READ[ext]]) if READ[ext] != "Dat" else ext
    path = fname(rng, spelled, mon.scratch)
    mon.note(path, settings, data[:300].hex())
    with open(path, "wb") as f:
        f.write(data)

    def plain():
        p = EmbPattern()
        try:
            src = source(mod, data)
        except UnicodeDecodeError:
            with io.open(path, "r", encoding="utf-8", newline="") as h:
                mod.read(h, p, settings)
        else:
            mod.read(src, p, settings)
        return p

    want, err = attempt(plain)
    kept = gen.make_pattern([(1, 2, STITCH), (5, 5, TRIM)], [{"color": 0x123456}], {"k": "v"})

    def ctor():
        if settings and rng.random() < 0.5:
            return EmbPattern(path, **settings)
        return EmbPattern(path, settings) if rng.random() < 0.5 else EmbPattern(path, settings=settings)

    def method():
        p = EmbPattern()
        p.read(path, **(settings or {}))
        return p

    def stream(reader_call):
        def go():
            try:
                st = source(mod, data)
            except UnicodeDecodeError:
                return want
            p = reader_call(st)
            mon.check(not st.closed, "stream-closed", "reading leaves the stream of the caller open", {"file": path})
            return p
        return go

    ways = {
        "read": lambda: pe.read(path, settings), "static_read": lambda: EmbPattern.static_read(path, settings), "constructor": ctor, "method": method,
        "read_embroidery file": lambda: pe.read_embroidery(mod, path, settings), "read_embroidery stream": stream(lambda st: EmbPattern.read_embroidery(mod, st, settings)),
        "into": lambda: pe.read(path, settings, EmbPattern()),
    }
    own = getattr(pe, "read_" + fmt_name(ext), None)
    if own is not None:
        ways["read_%s file" % ext] = lambda: own(path, settings)
        ways["read_%s stream" % ext] = stream(lambda st: getattr(EmbPattern, "read_" + fmt_name(ext))(st, settings))
    for k in rng.sample(sorted(ways), min(len(ways), 5)):
        with Watch(mon, mon.scratch, "reading %s (%s)" % (os.path.basename(path), k)):
            got, e = attempt(ways[k])
            mon.count("reads")
            if err is None:
                mon.check(e is None, "read-way", "%s reads %s as its reader does" % (k, os.path.basename(path)), lambda: {"error": repr(e), "file": path})
                if e is None:
                    mon.check(state(got) == state(want), "read-way", "%s gives the pattern its reader gives" % k,
                              lambda: {"file": path, "reader": READ[ext], "rows": None if got is None else (len(got.stitches), len(want.stitches))})
            else:
                mon.check(e is not None and type(e) is type(err), "read-way-error", "%s refuses what its reader refuses" % k, lambda: {"error": repr(e), "reader": repr(err), "file": path})
        e = None
    if err is None and len(want.stitches) >= 2:
        mon.sig(data, os.path.basename(path))
        mon.sample({"file": os.path.basename(path), "reader": READ[ext], "rows": len(want.stitches)})
    if err is None:
        # into a pattern that is not empty: every way in gives the same (what it gives is P45's)
        intos = {
            "read": lambda q: pe.read(path, settings, q), "static_read": lambda q: EmbPattern.static_read(path, settings, q),
            "read_embroidery": lambda q: pe.read_embroidery(mod, path, settings, q), "method": lambda q: (q.read(path, **(settings or {})), q)[1],
        }
        if own is not None:
            intos["read_" + ext] = lambda q: own(path, settings, q)
        k1, k2 = rng.sample(sorted(intos), 2)
        a, ea = attempt(lambda: intos[k1](kept.copy()))
        b, eb = attempt(lambda: intos[k2](kept.copy()))
        mon.check((ea is None) == (eb is None) and (ea is not None or state(a) == state(b)), "read-into", "%s and %s read into a pattern alike" % (k1, k2),
                  lambda: {"file": path, "errors": (repr(ea), repr(eb))})
    os.remove(path)


def fmt_name(ext):
    return {"u00": "u01", "u02": "u01", "ngc": "gcode", "nc": "gcode", "g": "gcode", "g-code": "gcode"}.get(ext, ext)


def do_write(rng, mon):
    import pyembroidery as pe
    from pyembroidery import EmbPattern

    f = rng.choice(fmts.W)
    ext = f.ext
    p, s = pattern(rng, ext)
    mod = f.writer()
    mon.note(ext, s, show(p.stitches, 60))
    want = fmts.write(ext, p, s)
    want = want.encode("utf8") if isinstance(want, str) else want
    path = fname(rng, ext, mon.scratch)
    own = getattr(pe, "write_" + ext, None)

    def stream(call):
        def go():
            st = fmts.sink(f)
            call(st)
            mon.check(not st.closed, "stream-closed", "writing leaves the stream of the caller open", {"format": ext})
            v = st.getvalue()
            return v.encode("utf8") if isinstance(v, str) else v
        return go

    def file_stream():
        with open(path, "w" if f.wtext else "w+b") as st:
            pe.write_embroidery(mod, p, st, s)
            mon.check(not st.closed, "stream-closed", "writing leaves the stream of the caller open", {"format": ext})

    ways = {
        "write": lambda: pe.write(p, path, s), "static_write": lambda: EmbPattern.static_write(p, path, s), "method": lambda: p.write(path, **s),
        "write_embroidery file": lambda: pe.write_embroidery(mod, p, path, s), "write_embroidery stream": stream(lambda st: EmbPattern.write_embroidery(mod, p, st, s)),
        "file stream": file_stream,
    }
    if own is not None:
        ways["write_%s file" % ext] = lambda: own(p, path, s)
        ways["write_%s stream" % ext] = stream(lambda st: getattr(EmbPattern, "write_" + ext)(p, st, s))
    for k in rng.sample(sorted(ways), min(len(ways), 4)):
        was = rng.choice((None, b"", b"old" * 3, b"x" * (len(want) + rng.randint(1, 5000))))
        if was is not None:
            with open(path, "wb") as h:
                h.write(was)
        elif os.path.exists(path):
            os.remove(path)
        with Watch(mon, mon.scratch, "writing %s (%s)" % (os.path.basename(path), k), [path] if "stream" not in k or k == "file stream" else ()):
            got, e = attempt(ways[k])
        mon.count("writes")
        if e is None and got is None:
            got = None
            if os.path.exists(path):
                with open(path, "rb") as h:
                    got = h.read()
        mon.check(e is None and got == want, "write-way", "%s writes the bytes the writer of %s writes" % (k, ext),
                  lambda: {"settings": s, "file": os.path.basename(path), "error": repr(e), "lengths": (got is not None and len(got), len(want)), "was there": was is not None and len(was)})
        e = None
    mon.sig(want, os.path.basename(path))
    mon.sample({"file": os.path.basename(path), "settings": s, "bytes": len(want)})
    if os.path.exists(path):
        os.remove(path)


def do_convert(rng, mon):
    import pyembroidery as pe

    ext, data, settings = sample_file(rng)
    out = rng.choice([f for f in fmts.W if f.ext != "png"]).ext
    a, b = fname(rng, ext, mon.scratch), os.path.join(mon.scratch, "out." + case_of(rng, out))
    s = dict(settings or {}, **fmts.random_settings(rng, out))
    s.pop("version", None)
    s["date"] = "20200102030405"
    mon.note(a, b, s, data[:300].hex())
    with open(a, "wb") as h:
        h.write(data)
    if os.path.exists(b):
        os.remove(b)
    if rng.random() < 0.5:
        with open(b, "wb") as h:
            h.write(b"z" * rng.choice((0, 5, 100000)))

    def two():
        p = pe.EmbPattern()
        mod = module("Reader", READ[ext])
        mod.read(source(mod, data), p, s)
        v = fmts.write(out, p, s)
        return v.encode("utf8") if isinstance(v, str) else v

    probe, _ = attempt(lambda: pe.read(a, s))
    if probe is not None and any(not abs(v) < 20000 for r in probe.stitches for v in r[:2]):
        os.remove(a)
        return  # the way would be filled with millions of stitches
    want, err = attempt(two)
    with Watch(mon, mon.scratch, "converting %s to %s" % (os.path.basename(a), out), [b]):
        got, e = attempt(lambda: pe.convert(a, b, s))
        mon.count("conversions")
        if err is None:
            mon.check(e is None, "convert", "%s converts to %s" % (ext, out), lambda: {"error": repr(e), "settings": s})
            if e is None:
                with open(b, "rb") as h:
                    got = h.read()
                mon.check(got == want, "convert", "converting %s to %s equals reading, then writing" % (ext, out), lambda: {"settings": s, "lengths": (len(got), len(want))})
        else:
            mon.count("refused conversions")
            mon.check(type(e) is type(err), "convert-error", "converting refuses what writing refuses", lambda: (repr(e), repr(err)))
    mon.sig(data, out)
    for x in (a, b):
        if os.path.exists(x):
            os.remove(x)


UNKNOWN = ("", "xyz", "art", "dstx", "ds", "pesx", "e", "e03", "jp", "doc", "d st", "cnd", "u03", "json5", "pe s")


def do_refuse(rng, mon):
    import pyembroidery as pe
    from pyembroidery import EmbPattern

    w = mon.scratch
    p, s = pattern(rng, "dst")
    kind = rng.randrange(7)
    mon.count("refusals")

    def name_of(ext):
        n = fname(rng, ext, w)
        os.makedirs(os.path.join(w, "sub.dir"), exist_ok=True)
        return n if ext else os.path.join(w, rng.choice(("noext", ".dst", "a-dst", "sub.dir/x", "pes")))

    def put(path, data=b"precious"):
        with open(path, "wb") as h:
            h.write(data)
        return path

    def refused(f, what, path=None):
        with Watch(mon, w, what):
            got, e = attempt(f)
            mon.check(isinstance(e, (IOError, OSError)), "not-refused", "%s is refused with an IOError" % what, lambda: {"file": path, "error": repr(e), "result": repr(got)})

    if kind == 0:  # unknown or read-only types are not written
        ext = rng.choice(UNKNOWN + tuple(e for e in READ if e not in fmts.BY and READ[e] not in ("Gcode", "U01")))
        path = name_of(ext)
        if os.path.splitext(path)[1][1:].lower() in fmts.BY:
            return
        if rng.random() < 0.5:
            put(path)
        refused(rng.choice((lambda: pe.write(p, path, s), lambda: p.write(path, **s), lambda: EmbPattern.static_write(p, path))), "writing a .%s file" % ext, path)
    elif kind == 1:  # unknown types and types only written read as nothing
        ext = rng.choice(UNKNOWN + ("png", "svg", "txt"))
        path = put(name_of(ext), rng.choice((b"", b"precious", fmts.write("dst", p, None))))
        if os.path.splitext(path)[1][1:].lower() in READ:
            os.remove(path)
            return
        q = p.copy()
        before = state(q)
        with Watch(mon, w, "reading a .%s file" % ext):
            got, e = attempt(lambda: pe.read(path, s, q))
            mon.check(e is None and got is None, "unknown-read", "a file of an unknown type reads as nothing", lambda: {"file": path, "error": repr(e), "result": repr(got)})
            got, e = attempt(lambda: EmbPattern(path))
            mon.check(e is None and state(got) == state(EmbPattern()), "unknown-read", "a pattern from a file of an unknown type is empty", lambda: {"file": path, "error": repr(e)})
            q.read(path)
        mon.check(state(q) == before, "unknown-read", "reading an unknown type leaves the pattern alone", lambda: {"file": path})
    elif kind == 2:  # converting to what cannot be written
        a = put(name_of("dst"), fmts.write("dst", p, None))
        b = name_of(rng.choice(UNKNOWN[1:] + ("hus", "sew", "100")))
        if os.path.splitext(b)[1][1:].lower() in fmts.BY or a == b:
            return
        if rng.random() < 0.6:
            put(b)
        refused(lambda: pe.convert(a, b, s if rng.random() < 0.5 else None), "converting to %s" % os.path.basename(b), b)
    elif kind == 3:  # converting what cannot be read leaves the target alone
        a = name_of(rng.choice(UNKNOWN + ("png", "svg", "txt")))
        b = os.path.join(w, "t." + rng.choice(fmts.W).ext)
        if os.path.splitext(a)[1][1:].lower() in READ or a == b:
            return
        put(a)
        if rng.random() < 0.6:
            put(b)
        with Watch(mon, w, "converting from %s" % os.path.basename(a)):
            attempt(lambda: pe.convert(a, b, s))
    elif kind == 4:  # missing files
        a = name_of(rng.choice(sorted(READ)))
        if os.path.exists(a):
            os.remove(a)
        b = os.path.join(w, "t." + rng.choice(fmts.W).ext)
        if a == b:
            return
        if rng.random() < 0.6:
            put(b)
        f = rng.choice((lambda: pe.read(a), lambda: EmbPattern(a), lambda: EmbPattern().read(a), lambda: pe.convert(a, b), lambda: pe.read_embroidery(module("Reader", READ[os.path.splitext(a)[1][1:].lower()]), a)))
        refused(f, "reading the missing %s" % os.path.basename(a), a)
    elif kind == 5:  # no such directory
        f = rng.choice(fmts.W)
        path = os.path.join(w, "no such", "x." + f.ext)
        q, s = pattern(rng, f.ext)
        refused(lambda: pe.write(q, path, s), "writing to a missing directory", path)
        mon.check(not os.path.exists(os.path.dirname(path)), "other-file", "no directory is made", {})
    else:  # a design the format cannot hold: an error, and nothing left open
        bad = rng.choice((
            ("dst", lambda: gen.make_pattern([(0, 0, STITCH), (5000, 0, STITCH), (0, 0, END)], []), {"max_stitch": 9999, "max_jump": 9999, "long_stitch_contingency": LONG_NONE}),
            ("pec", lambda: gen.make_pattern(sum(([(k, 0, STITCH), (k, 0, COLOR_CHANGE)] for k in range(300)), []), gen.threads(rng, 301)), {}),
            ("json", lambda: gen.make_pattern([(0, 0, STITCH)], [], {"x": object()}), {}),
        ))
        path = put(os.path.join(w, "bad." + bad[0]), b"old")
        with Watch(mon, w, "a write that fails", [path]):
            got, e = attempt(lambda: pe.write(bad[1](), path, bad[2]))
            mon.count("failed writes", e is not None)
    mon.sig("refuse", kind, rng.random())
    for d, _, fs in os.walk(w):
        for f in fs:
            os.remove(os.path.join(d, f))


def case(i, rng, mon):
    {"read": do_read, "write": do_write, "convert": do_convert, "refuse": do_refuse}[KINDS[i % 4]](rng, mon)
    if i % 200 == 0:
        gc.collect()


def once(mon):
    """the table of formats"""
    import pyembroidery as pe

    seen, written = {}, {}
    for f in pe.supported_formats():
        for k in ("description", "extension", "extensions", "mimetype", "category"):
            mon.check(k in f, "table", "each format states its %s" % k, lambda: f)
        for e in set(f["extensions"]) | {f["extension"]}:
            mon.check(e == e.lower() and e not in seen, "table", "extension %s belongs to one format" % e, lambda: f)
            seen[e] = f
        mon.check("reader" in f or "writer" in f, "table", "each format can be read or written", lambda: f["extension"])
    for e, m in READ.items():
        mon.count("table")
        mon.check(e in seen and seen[e].get("reader") is module("Reader", m), "table", ".%s is read by the %s reader" % (e, m), lambda: str(seen.get(e)))
    for f in fmts.W:
        mon.count("table")
        mon.check(f.ext in seen and seen[f.ext]["extension"] == f.ext and seen[f.ext].get("writer") is f.writer(), "table", ".%s is written by %s" % (f.ext, f.module), lambda: str(seen.get(f.ext)))
