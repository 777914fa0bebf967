"""Files read one after another into the same pattern."""
import os
import random

from lib import gen, refmk
from lib.cmds import *
from props.P42 import read_into

ID = "P45"
LEVEL = "exploration"
SOURCES = sorted(refmk.BUILDERS)
RULE = (
    "histories of one to four files of %d format variants from independent encoders, whole or cut off, read through every entry point into a pattern that is empty, was put together by hand, or went through calls of its own in between; "
    "oracle: the same file read alone: its rows follow the earlier ones, all moved by one displacement (none, or to where the pen was), its threads follow the earlier threads, its metadata join the earlier; the rows and "
    "threads that were there stay the same objects with the same values, and relative calls go on from where the file ends; non-trivial = at least 3 rows before and 3 read; distinct by files" % len(SOURCES))
ASSUMPTIONS = ["jumps before the first other command of a file may differ: how to get there depends on where the pen was", "G-code that changes from relative to absolute positions on the way is not moved as one"]
MIN_EVENTS = {"appended": 9000, "rows": 400000, "threads": 30000, "kept_rows": 400000, "kept_threads": 30000, "cut": 900, "histories": 4000}


def cases(tier):
    return 9000 if tier == "quick" else 120000


def thread_values(ts):
    return [t and sorted((k, repr(v)) for k, v in vars(t).items()) for t in ts]


def lead(rows):
    k = 0
    while k < len(rows) and rows[k][2] == JUMP:
        k += 1
    return k


def pen(p):
    q = p.copy()
    q.stitch(0, 0)
    return q.stitches[-1][:2]


def by_hand(p, rng):
    for _ in range(rng.choice((1, 4, 9))):
        p.stitch(rng.randint(-30, 30), rng.randint(-30, 30))
        k = rng.randrange(12)
        if k == 0:
            p.trim()
        elif k == 1:
            p.move(rng.randint(-90, 90), 3)
            p.move(5, 5)
            p.move(-5, -5)
        elif k == 2:
            p.color_change()
        elif k == 3:
            p.stop()
        elif k == 4:
            p.needle_change(rng.randint(1, 9))
    if rng.random() < 0.4:
        for d in gen.threads(rng, rng.choice((1, 2, 5)), meta=True):
            p.add_thread(gen.make_threads([d])[0])
    if rng.random() < 0.3:
        p.metadata("mine", "x")
    if rng.random() < 0.3:
        p.end()


def case(i, rng, mon):
    import pyembroidery as pe

    p = pe.EmbPattern()
    if rng.random() < 0.4:
        by_hand(p, rng)
    history = []
    mon.count("histories")
    for step in range(rng.choice((1, 2, 2, 3, 4))):
        f = refmk.make(SOURCES[i % len(SOURCES)] if step == 0 else rng.choice(SOURCES), rng)
        path = os.path.join(mon.scratch, "s%d.%s" % (step, f.ext))
        data = f.data
        cut = rng.random() < 0.08
        if cut:
            data = data[: rng.randrange(len(data) + 1)]
        with open(path, "wb") as h:
            h.write(data)
        history.append(f.format + (" cut to %d" % len(data) if cut else ""))
        rows, threads, extras = list(p.stitches), list(p.threadlist), dict(p.extras)
        values = [tuple(r) for r in rows], thread_values(threads)
        at = pen(p)
        mon.note(history, show(rows[-30:], 30))
        seed = rng.random()
        random.seed(seed)  # JPX has no colours of its own
        try:
            alone = pe.read(path)
        except Exception:
            if not cut:
                raise
            alone = None
        random.seed(seed)
        detail = lambda: {"files": history, "before": show(rows[-20:], 20), "threads before": values[1][-3:], "alone": alone and show(alone.stitches, 60), "appended": show(p.stitches[len(rows):], 60)}
        try:
            read_into(path, p, rng, mon)
            failed = False
        except Exception as e:
            failed = True
            mon.check(alone is None, "refused:" + f.format, "a file that reads alone cannot be read into a pattern: %r" % (e,), detail)
        os.remove(path)
        mon.check(len(p.stitches) >= len(rows) and all(x is y for x, y in zip(p.stitches, rows)) and [tuple(r) for r in rows] == values[0], "rows-kept:" + f.format,
                  "reading a file into a pattern changes the rows that were there", detail)
        mon.check(len(p.threadlist) >= len(threads) and all(x is y for x, y in zip(p.threadlist, threads)) and thread_values(threads) == values[1], "threads-kept:" + f.format,
                  "reading a file into a pattern changes the threads that were there", detail)
        mon.count("kept_rows", len(rows))
        mon.count("kept_threads", len(threads))
        if cut:
            mon.count("cut")
            if failed or alone is None:
                break
        got = [tuple(r) for r in p.stitches[len(rows):]]
        want = [tuple(r) for r in alone.stitches]
        g, w = got[lead(got):], want[lead(want):]
        ok = len(g) == len(w) and all(a[2] == b[2] for a, b in zip(g, w))
        mon.check(ok, "rows:" + f.format, "the rows a file adds to a pattern are not those of the file", detail)
        if g:
            eq = lambda a, b, d: all(abs(a[n] - b[n] - d[n]) <= 1e-6 * max(1, abs(b[n])) for n in (0, 1))
            still = 0  # where the file itself has not been anywhere yet, commands are where the pen was
            while still < len(w) and w[still][0] == w[still][1] == 0:
                still += 1
            near = lambda d: all(eq(a, b, d) or n < still and eq(a, at, (0, 0)) for n, (a, b) in enumerate(zip(g, w)))
            if f.ext == "gcode":  # may go from relative to absolute positions on the way
                near = lambda d: all(eq(a, b, (0, 0)) or eq(a, b, at) or n < still and eq(a, at, (0, 0)) for n, (a, b) in enumerate(zip(g, w)))
            mon.check(near((0, 0)) or near(at), "moved:" + f.format, "the rows a file adds to a pattern are not moved as one, by nothing or to where the pen was (%r)" % (at,), detail)
        mon.count("rows", len(g))
        mon.check(thread_values(p.threadlist[len(threads):]) == thread_values(alone.threadlist), "threads:" + f.format, "the threads a file adds to a pattern are not those of the file",
                  lambda: (detail(), thread_values(p.threadlist[len(threads):]), thread_values(alone.threadlist)))
        mon.count("threads", len(alone.threadlist))
        mon.check(p.extras == dict(extras, **alone.extras), "metadata:" + f.format, "the metadata of a file do not join those of the pattern", lambda: (extras, alone.extras, p.extras))
        if got:
            k = pen(p)
            mon.check(abs(k[0] - got[-1][0]) <= 1e-6 * max(1, abs(k[0])) and abs(k[1] - got[-1][1]) <= 1e-6 * max(1, abs(k[1])) or pen(alone) != list(want[-1][:2]), "pen:" + f.format,
                      "relative calls do not go on from where the file ends", lambda: (k, detail()))
        mon.count("appended")
        if len(rows) >= 3 and len(want) >= 3:
            mon.sig(*history, got)
            mon.sample({"files": list(history), "before": len(rows), "added": len(got)})
        if rng.random() < 0.3:
            by_hand(p, rng)
            if rng.random() < 0.5:
                p.end()
