"""Both ends are independent: files come from the independent encoders, and what was converted is decoded by the independent decoders
(needle points, well-formedness) and read again (events, colours)."""
import os

from lib import fmts, refdec, refmk, rt
from lib.cmds import *

ID = "P37"
LEVEL = "exploration"
SOURCES = sorted(refmk.BUILDERS)
TARGETS = ("dst", "exp", "jef", "pec", "pes", "vp3", "xxx", "u01", "tbf", "gcode", "csv", "json")
RULE = (
    "files of %d format variants from independent encoders converted along chains of one to three random target formats (%s) by convert(); oracle: after every step the "
    "needle points, events and colours are those the first file encodes, mapped through the reference encoder and the information model of each format of the chain; "
    "non-trivial = at least 3 needle points; distinct by file and chain" % (len(SOURCES), ", ".join(TARGETS)))
ASSUMPTIONS = [
    "designs within +-9000 units; events are not compared for PEC and PES (their stops are repeated colours)",
    "TBF and U01 have no needle 0; a sequin takes a stitch of its own where the thread was cut; a stitch in place after a speed change is not representable in U01",
    "colours are compared where the format stores RGB and the file gives a thread for the block",
]
MIN_EVENTS = {"conversions": 20000, "needle_points": 500000, "events": 50000, "colours": 50000}


def cases(tier):
    return 24600 if tier == "quick" else 410000


def pack(r):
    return (r[0], r[1], r[2] if r[3] is None else r[2] | (r[3] + 1) << 16)


def decoded(ext, data):
    """the needle points an independent decoder finds in the file"""
    d = getattr(refdec, ext)(data)
    if isinstance(d, tuple):  # PES version 6: the colour blocks are counted in the PEC part
        n = (data[d[0]["offset"] + 48] + 1) % 256
        d = refdec.pes6_tail(d[0], d[1], n, False)
    if ext == "vp3":
        ev = [e for b in d["blocks"] for e in b["events"]]
    else:
        ev = d["pec"]["events"] if ext == "pes" else d["events"]
    s = -1 if ext == "gcode" else 1
    out = []
    at = (0, 0)
    for e in ev:
        if e[2].endswith("stitch") and not (e[2] in ("slow stitch", "fast stitch") and (e[0], e[1]) == at):  # U01: in place these are the speed alone
            out.append((s * e[0], s * e[1]))
        at = (e[0], e[1])
    return out


def follow(points, rows, tol, repeats):
    """None when the stitches of the rows are the points, in order and without gaps, each within tol; otherwise where they are not.
    With repeats a stitch may also sew the place where the needle already stands (after a jump, before a change)."""
    ks = {0}
    pos = (0, 0)
    n = 0
    for r in rows:
        at = (r[0], r[1])
        if r[2] == STITCH:
            nk = {k + 1 for k in ks if k < len(points) and abs(points[k][0] - at[0]) <= tol and abs(points[k][1] - at[1]) <= tol}
            if repeats and at == pos:
                nk |= ks
            if not nk:
                return n, max(ks)
            ks = nk
            n += 1
        pos = at
    return None if len(points) in ks else (n, max(ks))


def stitch_colours(rows, threads):
    k, out = 0, []
    for r in rows:
        if r[2] == COLOR_CHANGE:
            k += 1
        elif r[2] == STITCH:
            out.append(threads[k] if k < len(threads) else None)
    return out


def case(i, rng, mon):
    import pyembroidery as pe

    f = refmk.make(SOURCES[i % len(SOURCES)], rng)
    if any(abs(r[0]) > 9000 or abs(r[1]) > 9000 for r in f.rows):
        mon.count("too_large")
        return
    path = os.path.join(mon.scratch, "f." + f.ext)
    with open(path, "wb") as h:
        h.write(f.data)
    rows = [pack(r) for r in f.rows]
    if getattr(f, "until_end", None):
        k = [base(r[2]) for r in rows].index(END) if END in [base(r[2]) for r in rows] else len(rows)
        rows = rows[: k + 1]
    origin = rt.sewn(rows)
    colours = list(f.colors) if f.colors is not None else None
    real = [pack(r) for r in rt.real_rows(pe.read(path, f.settings))]  # the same rows (P08), to the last digit
    if len(real) >= len(rows) and all(a[2] == b[2] and abs(a[0] - b[0]) < 1e-6 and abs(a[1] - b[1]) < 1e-6 for a, b in zip(rows, real)):
        rows = real[: len(rows)]
    chain = [f.format]
    settings = f.settings
    tol = f.tol * 9000 + 1e-6
    for step in range(rng.choice((1, 1, 2, 3))):
        ext = rng.choice(TARGETS)
        if ext in ("tbf", "u01") and any(split(r[2])[1] == 0 for r in rows):  # needle 0 is the stop code there
            break
        chain.append(ext)
        out = os.path.join(mon.scratch, "g%d.%s" % (step, ext))
        ws = dict(settings or {})
        ws["date"] = "20200102030405"
        if ext == "pes" and rng.random() < 0.5:
            ws["version"] = 6
        mon.note(*chain, ws, show(rows, 60))
        pe.convert(path, out, ws)
        mon.count("conversions")
        mon.count("to_" + ext)
        os.remove(path)
        path = out
        with open(out, "rb") as h:
            data = h.read()
        q = pe.read(out)
        got = rt.real_rows(q)
        if getattr(f, "until_end", None) and END in [r[2] for r in got]:  # a file with more than one end
            got = got[: [r[2] for r in got].index(END) + 1]
        gp = [(r[0], r[1]) for r in got if r[2] == STITCH]
        used = None
        qc = [None if t is None else t.color & 0xFFFFFF for t in q.threadlist]
        detail = lambda: {"chain": chain, "settings": ws, "converted": show(rows, 100), "read": show(q.stitches, 100), "colours": colours and ["%06x" % (c or 0) for c in colours],
                          "read colours": ["%06x" % (c or 0) for c in qc]}
        if ext in ("csv", "json"):
            want = [(r[0], r[1], base(r[2]), split(r[2])[1] if base(r[2]) == NEEDLE_SET else None) for r in rows]
            step_tol = 1e-3
            mon.check(colours is None or qc == colours, "threads:" + ext, "the threads are those converted", detail)
        else:
            enc, used = rt.encoded(ext, rows, len(colours or []), {})
            want, _ = rt.expected(ext, rows, len(colours or []), {}, {})
            step_tol = {"vp3": 1.02, "gcode": 0.0051}.get(ext, 1.01)
            whole = all(r[0] == int(r[0]) and r[1] == int(r[1]) for r in rows)
            tol += {"vp3": 0 if whole else 1.02, "gcode": 0.0051}.get(ext, 0 if whole else 0.51)
            try:
                dp = decoded(ext, data)
            except (refdec.Bad, ValueError) as e:
                mon.fail("malformed:" + ext, "%s: %s" % (ext, e), detail())
            near = len(dp) == len(gp) and all(abs(a[0] - b[0]) < 0.02 and abs(a[1] - b[1]) < 0.02 for a, b in zip(dp, gp))
            mon.check(near, "decoded:" + ext, "an independent decoder finds the needle points that are read", lambda: (dp[:30], gp[:30], detail()))
        speeds = ext == "u01" and any(base(r[2]) in (SLOW, FAST) for r in rows)  # a stitch in place after a speed change is not representable
        sequins = any(base(r[2]) == SEQUIN_EJECT for r in rows)  # sewing them takes stitches of their own
        if ext in ("csv", "json") or not sequins and not speeds:
            mon.count("needle_points", len(origin))
            bad = follow(origin, got, tol, ext in ("pec", "pes"))
            mon.check(bad is None, "needle-points:" + ext, "the needle points are those of the first file (read %s, first file %s)" % (bad or (0, 0)), detail)
        if ext not in ("pec", "pes"):
            for k in range(max(len(got), len(want))):
                mon.count("events")
                g, w = got[k] if k < len(got) else None, want[k] if k < len(want) else None
                if g is None or w is None or g[2:] != w[2:] or max(abs(g[0] - w[0]), abs(g[1] - w[1])) > step_tol:
                    mon.fail("events:" + ext, "%s: event %d read back is %s, expected %s" % (" to ".join(chain), k, g and (name(g[2]), g), w and (name(w[2]), w)), detail())
        if used is not None and colours is not None and (ext in ("vp3", "xxx") or ws.get("version") == 6 and ext == "pes"):
            seq = [colours[t] if t < len(colours) else None for t in used]
            wc = stitch_colours(enc, seq)
            gc = stitch_colours(got, qc)
            if ext == "pes":
                ok = len(set(zip(seq, seq[1:]))) >= 0 and not any(a == b for a, b in zip(seq, seq[1:])) and not any(base(r[2]) == STOP for r in rows) and len(gc) == len(wc)
            else:
                ok = True
            if ok:
                mon.check(len(wc) == len(gc), "colours:" + ext, "every stitch is read", detail)
                for k, (w, g) in enumerate(zip(wc, gc)):
                    mon.count("colours")
                    if w is not None and w != g:
                        mon.fail("colours:" + ext, "stitch %d is sewn in %r, before it was %06x" % (k, g, w), detail())
        if len(origin) >= 3:
            mon.sig(f.data, chain)
            mon.sample({"chain": chain, "needle points": len(origin), "first rows": show(rows, 5), "read": show(q.stitches, 5)})
        if ext in ("pec", "pes") or speeds or sequins:  # points added belong to the design from here on
            origin, tol = gp, 1e-6
        rows = [pack(r) for r in got]
        colours = qc
        settings = None
    os.remove(path)
