import io
import os
import types

from lib import enc, fmts, gen, rt
from lib.cmds import *

ID = "P43"
LEVEL = "exploration"
RULE = (
    "writers and readers of the caller's own, declaring random subsets of the limits and needs a format can declare, given random designs and options by name and by stream: the pattern, options and "
    "stream that reach them are recorded; every writer of the library with random explicit options against writing the encoded design as it is; and the lossless text formats asked to encode; oracle: the "
    "reference encoder under the declared needs overridden by the options given; non-trivial = at least 3 rows reach the writer; distinct by (declared, options, rows)"
)
ASSUMPTIONS = ["options of the values they document; dates are given"]
MIN_EVENTS = {"writers": 8000, "rows": 150000, "same_bytes": 4000, "readers": 2500, "lossless": 900}

DECLARE = {
    "MAX_JUMP_DISTANCE": ("max_jump", enc.LIMITS),
    "MAX_STITCH_DISTANCE": ("max_stitch", enc.LIMITS),
    "FULL_JUMP": ("full_jump", (True, False)),
    "ROUND": ("round", (True, False)),
    "WRITES_SPEEDS": ("writes_speeds", (True, False)),
    "SEQUIN_CONTINGENCY": ("sequin_contingency", (SEQUIN_JUMP, SEQUIN_UTILIZE, SEQUIN_STITCH, SEQUIN_REMOVE)),
    "THREAD_CHANGE_COMMAND": ("thread_change_command", (COLOR_CHANGE, NEEDLE_SET, STOP)),
    "EXPLICIT_TRIM": ("explicit_trim", (True, False)),
    "TRANSLATE": ("translate", ((40, 50), (-3, 0), [7, 7])),
    "SCALE": ("scale", (2, (-1, -1), (1, 0.5))),
    "ROTATE": ("rotate", (90, -30, 45.5)),
}


def cases(tier):
    return 24000 if tier == "quick" else 300000


def source(rng):
    mode = rng.choice(("int", "half", "f"))
    if rng.random() < 0.6:
        return gen.design(rng, span=rng.choice((10, 60, 300)), mode=mode, box=3000, sequins=rng.random() < 0.4, speeds=rng.random() < 0.4)[0]
    return gen.soup(rng, rng.choice((0, 1, 3, 10, 30)), span=rng.choice((30, 200)), mode=mode)


def eq(u, v):
    return u[2] == v[2] and all(abs(a - b) <= 1e-6 * max(1, abs(v[0]), abs(v[1])) for a, b in zip(u[:2], v[:2]))


def rows_of(p):
    return [(r[0], r[1], base(r[2])) for r in p.stitches]


def own_writer(i, rng, mon):
    from pyembroidery import EmbPattern

    declared = {k: rng.choice(v) for k, (_, v) in DECLARE.items() if rng.random() < 0.4}
    if rng.random() < 0.15:
        declared["ENCODE"] = rng.random() < 0.5
    text = rng.random() < 0.3
    if text:
        declared["WRITE_FILE_IN_TEXT_MODE"] = True
    elif rng.random() < 0.2:
        declared["WRITE_FILE_IN_TEXT_MODE"] = False
    given = {}
    for k, (name_, v) in DECLARE.items():
        if rng.random() < 0.2:
            given[name_] = rng.choice(v)
    for k, v in (("tie_on", True), ("tie_off", True), ("needle_count", 3), ("long_stitch_contingency", LONG_SEW_TO), ("my option", "x"), ("version", 7)):
        if rng.random() < 0.15:
            given[k] = v
    if rng.random() < 0.15:
        given["encode"] = rng.random() < 0.5
    src = source(rng)
    specs = gen.threads(rng, 120, meta=rng.random() < 0.3)
    extras = {"name": "n", "k": 3} if rng.random() < 0.5 else {}
    p = gen.make_pattern(src, specs, extras)
    w = types.SimpleNamespace(**declared) if rng.random() < 0.5 else type("W", (), dict(declared))
    seen = []

    def write(pattern, f, settings=None):
        seen.append((pattern, f, settings))
        f.write("marker" if text else b"marker")

    w.write = staticmethod(write) if isinstance(w, type) else write
    by_name = rng.random() < 0.4
    path = os.path.join(mon.scratch, "own.out")
    stream = path if by_name else (io.StringIO() if text else io.BytesIO())
    arg = dict(given) if given or rng.random() < 0.5 else None
    mon.note(declared, given, show(src, 40))
    EmbPattern.write_embroidery(w, p, stream, arg)
    detail = lambda: {"declared": declared, "options": given, "source": show(src, 60), "reached": show(rows_of(seen[0][0]), 60) if seen else None}
    mon.count("writers")
    mon.check(len(seen) == 1, "called", "the writer is called %d times" % len(seen), detail)
    q, f, st = seen[0]
    if by_name:
        mon.check(f.closed and open(path, "rb").read() == b"marker", "file", "the file is not closed or not written", detail)
    else:
        mon.check(f is stream and stream.getvalue() == ("marker" if text else b"marker"), "stream", "the writer is given another stream", detail)
    mon.check(type(st) is dict and all(st.get(k, mon) == v for k, v in given.items()), "options", "the writer is given the options %r" % (st,), detail)
    if given.get("encode", declared.get("ENCODE", True)):
        s = {name_: declared[k] for k, (name_, _) in DECLARE.items() if k in declared}
        s.update(given)
        s.pop("encode", None)
        want, used = enc.refenc.encode([tuple(r) for r in src], len(specs), s)
        want = [r[:3] for r in want]
        if s.get("thread_change_command") == NEEDLE_SET:
            used = range(len(specs))  # a needle based machine is given every thread
        mon.check(len(used) == len(q.threadlist) and all(q.threadlist[k].color == specs[u]["color"] for k, u in enumerate(used) if u < len(specs)), "threads", "the threads that reach the writer are not those of the blocks", detail)
    else:
        want = [(r[0], r[1], base(r[2])) for r in src]
        mon.check(list(q.threadlist) == list(p.threadlist), "threads", "the threads that reach the writer are not those of the design", detail)
        mon.count("as_they_are")
    got = rows_of(q)
    mon.count("rows", len(got))
    d = enc.first_diff(got, want, eq)
    mon.check(d is None, "rows", "row %s that reaches the writer is %s, expected %s" % (
        d, d is not None and show(got[d:d + 1]), d is not None and show(want[d:d + 1])), detail)
    mon.check(q is not p and q.extras == extras, "metadata", "the metadata that reaches the writer is %r" % (q.extras,), detail)
    if len(got) >= 3:
        mon.sig(declared, given, got)
        mon.sample({"declared": declared, "options": given, "source": show(src, 10), "reached": show(got, 10)})


def same_bytes(i, rng, mon):
    """writing with options given is encoding with them, then writing as it is"""
    f = fmts.W[i // 2 % len(fmts.W)]
    s = dict(rt.LIMITS.get(f.ext, {}))
    for k, v in enc.settings(rng).items():
        if k in ("max_stitch", "max_jump"):
            v = min(v, s.get(k, v))
        elif k in ("thread_change_command", "sequin_contingency", "writes_speeds"):
            continue  # what the format cannot write is not asked for
        s[k] = v
    for k, d in (("max_stitch", 2047), ("max_jump", 2047), ("full_jump", False), ("round", True), ("writes_speeds", True), ("sequin_contingency", SEQUIN_JUMP),
                 ("thread_change_command", COLOR_CHANGE), ("explicit_trim", False), ("translate", None), ("scale", None), ("rotate", None)):
        s.setdefault(k, d)
    if f.ext not in ("gcode",) and rng.random() < 0.3:
        s["translate"], s["scale"], s["rotate"] = rng.choice(((5, 6), None)), rng.choice((0.5, None)), rng.choice((90, None))
    s.update(fmts.random_settings(rng, f.ext))
    src, _ = gen.design(rng, blocks=rng.randint(1, 4), per=rng.choice((3, 6)), span=rng.choice((10, 60)), box=900, sequins=rng.random() < 0.2)
    specs = gen.threads(rng, 60, meta=rng.random() < 0.5)
    p = gen.make_pattern(src, specs, {"name": "n", "date": "20200102030405"})
    mon.note(f.ext, s, show(src, 40))
    try:
        a = fmts.write(f.ext, p, dict(s, encode=True))
    except (ValueError, IndexError, AssertionError) as e:
        a = "refused %s" % type(e).__name__
    try:
        b = fmts.write(f.ext, p.get_normalized_pattern(dict(s)), dict(s, encode=False))
    except (ValueError, IndexError, AssertionError) as e:
        b = "refused %s" % type(e).__name__
    mon.count("same_bytes")
    mon.count("same_" + f.ext)
    mon.check(a == b, "encode-then-write", "writing %s with options is not encoding with them and then writing" % f.ext, lambda: {"options": s, "source": show(src, 60), "lengths": (len(a), len(b))})
    if f.ext in ("csv", "json") and not str(a).startswith("refused"):
        given = {k: v for k, v in s.items() if rng.random() < 0.4 and v is not None}
        q = fmts.read(f.ext, fmts.write(f.ext, p, dict(given, encode=True)))
        want, _ = enc.refenc.encode([tuple(r) for r in src], len(specs), dict({"sequin_contingency": SEQUIN_UTILIZE} if f.ext == "csv" else {}, **given))
        d = enc.first_diff(rows_of(q), [r[:3] for r in want], eq)
        mon.count("lossless")
        mon.check(d is None, "lossless", "%s asked to encode: row %s is not the encoded one" % (f.ext, d), lambda: {"options": given, "source": show(src, 60), "read": show(rows_of(q), 60)})


def own_reader(rng, mon):
    from pyembroidery import EmbPattern

    text = rng.random() < 0.4
    given = rng.choice((None, {}, {"a": 1, "trim_at": 3}))
    into = rng.choice((None, gen.make_pattern([[1, 2, STITCH]], gen.threads(rng, 1))))
    by_name = rng.random() < 0.5
    content = "é*,1\r\nx\n"
    seen = []

    def read(f, out, settings=None):
        seen.append((f, out, settings, f.read(), f.closed))
        out.stitch(3, 4)

    r = types.SimpleNamespace(read=read)
    if text:
        r.READ_FILE_IN_TEXT_MODE = True
    path = os.path.join(mon.scratch, "own.in")
    if by_name:
        with open(path, "wb") as h:
            h.write(content.encode("utf8"))
        src = path
    else:
        src = io.StringIO(content, newline="") if text else io.BytesIO(content.encode("utf8"))
    before = len(into) if into is not None else 0
    q = EmbPattern.read_embroidery(r, src, given, into)
    mon.count("readers")
    f, out, st, data, closed = seen[0]
    ok = len(seen) == 1 and (out is q if into is None else q is into) and len(q) == before + 1 and q.stitches[before][2] == STITCH and data == (content if text else content.encode("utf8")) and not closed
    ok = ok and (st == given or not st and not given) and (f.closed if by_name else f is src and not f.closed)
    mon.check(ok, "reader", "a reader of the caller is given what was asked for, and its pattern is returned", {"text": text, "by name": by_name, "options": (given, st), "data": data})


def case(i, rng, mon):
    if i % 2:
        same_bytes(i, rng, mon)
    else:
        own_writer(i, rng, mon)
        if i % 8 == 0:
            own_reader(rng, mon)
