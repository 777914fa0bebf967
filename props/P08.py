import io
import os

from lib import palette_names, refmk
from lib.cmds import *

ID = "P08"
LEVEL = "exploration"
FORMATS = sorted(refmk.BUILDERS)
RULE = (
    "files of %d format variants (%s) built by independent encoders from random record sequences that use the whole legal range of every field, random offsets, "
    "paddings and header contents; oracle: rows, needles, colours, thread texts and metadata read are exactly those encoded; non-trivial = at least 3 rows; "
    "distinct by file bytes" % (len(FORMATS), ", ".join(FORMATS)))
ASSUMPTIONS = [
    "record layouts of the formats without published description are those the readers document",
    "values whose meaning the formats leave open (minus zero, -128 lead bytes, ZHS 63, PMV 16/32) are not used",
]
MIN_EVENTS = {"rows": 1000000, "colors": 50000, "formats_seen": 60000}


def cases(tier):
    return 2400 * len(FORMATS) if tier == "quick" else 25000 * len(FORMATS)


def rows_of(p):
    return [(r[0], r[1], base(r[2]), split(r[2])[1]) for r in p.stitches]


def diff(a, b, tol):
    for k, (u, v) in enumerate(zip(a, b)):
        if u[2:] != v[2:] or abs(u[0] - v[0]) > tol * max(1, abs(v[0])) or abs(u[1] - v[1]) > tol * max(1, abs(v[1])):
            return k
    return None if len(a) == len(b) else min(len(a), len(b))


def case(i, rng, mon):
    import pyembroidery as pe

    f = refmk.make(FORMATS[i % len(FORMATS)], rng)
    mon.count("formats_seen")
    mon.count("file_bytes", len(f.data))
    ext = f.ext.upper() if rng.random() < 0.1 else f.ext
    path = os.path.join(mon.scratch, "f." + ext)
    with open(path, "wb") as h:
        h.write(f.data)
    p = pe.read(path, f.settings)
    os.remove(path)
    rows = rows_of(p)
    if getattr(f, "until_end", None):
        k = [r[2] for r in rows].index(END) if END in [r[2] for r in rows] else len(rows)
        rows = rows[: k + 1]
    mon.count("rows", len(f.rows))
    k = diff(rows, f.rows, f.tol)
    show_ = lambda rs: ["%s @ %r,%r%s" % (name(r[2]), r[0], r[1], "" if r[3] is None else " needle %d" % r[3]) for r in rs]
    mon.check(
        k is None, "rows:" + f.format, "reading a %s file gives the rows it encodes (row %s differs)" % (f.format, k),
        lambda: {"settings": f.settings, "read": show_(rows[max(0, k - 6):k + 6]), "encoded": show_(f.rows[max(0, k - 6):k + 6]),
                 "counts": (len(rows), len(f.rows)), "file": f.data[:200].hex(), "marks": f.marks[:3]})
    if f.colors is not None:
        got = [t.color & 0xFFFFFF for t in p.threadlist if t is not None]
        mon.count("colors", len(got))
        mon.check(got == f.colors, "colors:" + f.format, "the threads of a %s file have the colours it encodes" % f.format,
                  lambda: (["%06x" % c for c in got], ["%06x" % c for c in f.colors]))
    if getattr(f, "ncolors", None) is not None:
        mon.check(len(p.threadlist) == f.ncolors, "colors:" + f.format, "a thread for each colour of the file", lambda: (len(p.threadlist), f.ncolors))
    for k, (palette, index) in enumerate(f.picks):
        t = p.threadlist[k]
        mon.count("texts")
        want = palette_names.texts(palette, index)
        mon.check({a: getattr(t, a) for a in want} == want, "thread-text:" + f.format, "thread %d is %s thread %d of the palette" % (k, palette, index), lambda: (want, t))
    for k, d in enumerate(f.thread_texts):
        for a, v in d.items():
            mon.count("texts")
            mon.check(getattr(p.threadlist[k], a) == v, "thread-text:" + f.format, "thread %d: %s of the file" % (k, a), lambda: (v, getattr(p.threadlist[k], a)))
    for k, v in f.texts.items():
        mon.count("texts")
        mon.check(p.get_metadata(k) == v, "metadata:" + f.format, "metadata %s of the file" % k, lambda: (v, p.get_metadata(k)))
    for k, r in enumerate(p.stitches):
        mon.check(len(r) == 3, "row-shape", "rows have three values", lambda: r)
    if len(f.rows) >= 3:
        mon.sig(f.data)
        mon.sample({"format": f.format, "bytes": len(f.data), "rows": show_(f.rows[:8])})
