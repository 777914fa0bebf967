"""Sidecar colour files: the stitches in a file without colours, the threads in a colour file, put together again."""
import os

from lib import fmts, gen, refmk, rt
from lib.cmds import *
from props.P37 import pack, stitch_colours

ID = "P42"
LEVEL = "exploration"
SOURCES = sorted(refmk.BUILDERS)
RULE = (
    "random designs written to a format without colours (DST, EXP) and their threads to EDR, COL or INF, put together by reading both into one pattern in either order and through every entry point, then "
    "written to a format with colours (VP3, XXX, PES 6, JSON, CSV); colour files read into patterns that already hold files of %d variants; and files with colours converted to colour files; oracle: rows as read alone, "
    "the earlier content untouched object by object, threads appended in order, the pattern returned is the one given, and every stitch of the final file in the colour the design planned for it; "
    "non-trivial = at least 2 threads; distinct by (formats, rows, threads)" % len(SOURCES))
ASSUMPTIONS = ["designs that sew their threads in order and do not stop (DST and EXP write stops as colour changes)", "positions within +-9000 units"]
MIN_EVENTS = {"assembled": 10000, "stitch_colours": 120000, "appended": 12000, "converted": 12000}


def cases(tier):
    return 60000 if tier == "quick" else 1000000


def read_into(path, p, rng, mon):
    """reads the file into the pattern through some entry point"""
    import importlib
    import pyembroidery as pe
    from pyembroidery import EmbPattern

    ext = path.rsplit(".", 1)[1]
    k = rng.randrange(5)
    f = fmts.BY.get(ext)
    if k == 4 and f is None:
        k = 0
    if k == 0:
        got = pe.read(path, None, p)
    elif k == 1:
        p.read(path)
        got = p
    elif k == 2:
        got = EmbPattern.static_read(path, pattern=p)
    elif k == 3:
        own = getattr(pe, "read_" + ext, None)
        got = own(path, None, p) if own is not None else pe.read(path, {}, p)
    else:
        with open(path, "rb") as h:
            got = EmbPattern.read_embroidery(f.reader(), fmts.source(f, h.read()), None, p)
    mon.check(got is p, "other-pattern:" + ext, "reading into a pattern gives that pattern back")


def case(i, rng, mon):
    (assemble, assemble, append, convert)[i % 4](rng, mon)


def rgb(ts):
    return [t.color & 0xFFFFFF for t in ts]


def assemble(rng, mon):
    import pyembroidery as pe
    from pyembroidery import EmbPattern

    st, co, to = rng.choice(("dst", "exp")), rng.choice(("edr", "col", "inf")), rng.choice(("vp3", "xxx", "pes", "json", "csv"))
    d, nb = gen.design(rng, blocks=rng.choice((1, 2, 3, 6, 12)), span=rng.choice((20, 200)), box=3000, mode="int")
    colors = gen.colors(rng, nb + 1, to == "pes")
    if to == "pes":  # adjacent equal colours are one block there
        for k in range(1, len(colors)):
            if colors[k] == colors[k - 1]:
                colors[k] ^= 0x010101
    p = gen.make_pattern(d, [{"color": c} for c in colors])
    enc, used = rt.encoded(st, d, len(colors), {})
    if any(t is not None and t != k for k, t in enumerate(used)) or any(base(r[2]) == STOP for r in enc):
        mon.count("skipped")
        return
    mon.note(st, co, to, show(d, 60), ["%06x" % c for c in colors])
    a, b, c = (os.path.join(mon.scratch, "%s.%s" % (n, e)) for n, e in (("s", st), ("c", co), ("t", to)))
    pe.write(p, a)
    pe.write(p, b)
    plain = pe.read(a)
    q = EmbPattern()
    order = [a, b] if rng.random() < 0.5 else [b, a]
    for f in order:
        read_into(f, q, rng, mon)
    what = "%s and %s read into one pattern" % (st, co)
    mon.check([tuple(r) for r in q.stitches] == [tuple(r) for r in plain.stitches], "rows:" + st, what + ": the rows are those of the stitch file", lambda: (order, show(plain.stitches, 40), show(q.stitches, 40)))
    mon.check(rgb(q.threadlist) == colors, "threads:" + co, what + ": the threads are those of the colour file", lambda: (order, colors, rgb(q.threadlist)))
    mon.check({k: v for k, v in q.extras.items()} == plain.extras, "metadata:" + st, what + ": the metadata are those of the stitch file", lambda: (plain.extras, q.extras))
    pe.write(q, c, {"version": 6} if to == "pes" else None)
    r = pe.read(c)
    want = stitch_colours(enc, colors)
    got = stitch_colours(rt.real_rows(r), rgb(r.threadlist))
    if to == "pes":  # repeats in place
        if len(want) != len(got):
            want, got = [], []
    mon.check(len(want) == len(got), "stitches:" + to, "every stitch is in the final file", lambda: (len(want), len(got), show(r.stitches, 60)))
    for k, (w, g) in enumerate(zip(want, got)):
        mon.count("stitch_colours")
        if w != g:
            mon.fail("colours:" + to, "%s, written to %s: stitch %d is sewn in %r, planned %06x" % (what, to, k, g, w), {"design": show(d, 60), "threads": colors, "read": show(r.stitches, 60)})
    mon.count("assembled")
    for f in (a, b, c):
        os.remove(f)
    if len(colors) >= 2:
        mon.sig(st, co, to, d, colors)
        mon.sample({"stitches": st, "colours": co, "to": to, "threads": len(colors), "stitch colours": len(want)})


def append(rng, mon):
    import pyembroidery as pe

    f = refmk.make(rng.choice(SOURCES), rng)
    a = os.path.join(mon.scratch, "s." + f.ext)
    with open(a, "wb") as h:
        h.write(f.data)
    p = pe.read(a, f.settings)
    os.remove(a)
    if rng.random() < 0.3:
        p.add_thread(None) if rng.random() < 0.3 else p.add_thread({"color": 0x123456, "description": "mine"})
    co = rng.choice(("edr", "col", "inf"))
    colors = gen.colors(rng, rng.choice((0, 1, 2, 5, 30)), False)
    b = os.path.join(mon.scratch, "c." + co)
    pe.write(gen.make_pattern([], [{"color": c} for c in colors]), b)
    rows, threads, extras = list(p.stitches), list(p.threadlist), dict(p.extras)
    values = [tuple(r) for r in rows], [t and sorted((k, repr(v)) for k, v in vars(t).items()) for t in threads]
    read_into(b, p, rng, mon)
    os.remove(b)
    mon.check(len(p.stitches) == len(rows) and all(x is y for x, y in zip(p.stitches, rows)) and [tuple(r) for r in rows] == values[0], "rows-kept:" + co, "reading a colour file leaves the stitches as they were")
    mon.check(all(x is y for x, y in zip(p.threadlist, threads)) and [t and sorted((k, repr(v)) for k, v in vars(t).items()) for t in threads] == values[1], "threads-kept:" + co,
              "reading a colour file leaves the earlier threads as they were", lambda: (values[1], p.threadlist))
    mon.check(rgb(p.threadlist[len(threads):]) == colors, "appended:" + co, "the threads of a colour file follow the earlier ones in order", lambda: (len(threads), colors, [t and t.color for t in p.threadlist]))
    mon.check(p.extras == extras, "extras-kept:" + co, "reading a colour file leaves the metadata as they were")
    mon.count("appended")
    if len(colors) >= 2:
        mon.sig(f.data, co, colors)


def convert(rng, mon):
    import random

    import pyembroidery as pe

    f = refmk.make(rng.choice(SOURCES), rng)
    a = os.path.join(mon.scratch, "s." + f.ext)
    with open(a, "wb") as h:
        h.write(f.data)
    seed = rng.random()
    random.seed(seed)
    threads = pe.read(a, f.settings).threadlist
    co = rng.choice(("edr", "col", "inf"))
    b = os.path.join(mon.scratch, "c." + co)
    random.seed(seed)
    pe.convert(a, b, f.settings)
    got = pe.read(b).threadlist
    mon.check(rgb(got) == rgb(threads), "converted:" + co, "%s converted to %s holds the colours of the file" % (f.format, co), lambda: (rgb(threads), rgb(got)))
    if f.colors is not None and None not in f.colors:
        mon.check(rgb(got) == [c & 0xFFFFFF for c in f.colors], "converted:" + co, "%s converted to %s holds the colours the file was made with" % (f.format, co), lambda: (f.colors, rgb(got)))
        mon.count("known_colours", len(got))
    if co == "inf":
        mon.check([(t.description, t.chart) for t in got] == [(t.description or "Unknown" if t.description is None else t.description, "Unknown" if t.chart is None else t.chart) for t in threads], "converted:inf",
                  "the thread texts are those of the file", lambda: ([(t.description, t.chart) for t in threads], [(t.description, t.chart) for t in got]))
    mon.count("converted")
    os.remove(a)
    os.remove(b)
    if len(threads) >= 2:
        mon.sig(f.data, co)
