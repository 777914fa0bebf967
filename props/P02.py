from lib import fmts, gen, rt
from lib.cmds import *
from props.P01 import FORMATS, SPAN, reader_settings, writer_settings

ID = "P02"
LEVEL = "exploration"
RULE = (
    "random designs and hostile command soups with trims, stops, changes, sequins, speeds and jumps, written and read in DST, EXP, JEF, PEC, PES, "
    "VP3, XXX, U01, TBF and G-code under random options; oracle: the source design through the reference encoder and the information model of the "
    "format gives the event sequence to be read; non-trivial = at least 2 events that are not stitches; distinct by (format, options, events)"
)
ASSUMPTIONS = [
    "formats whose file has no code for an event drop or merge it as documented in lib/rt.py (for example STOP reads as a colour change in EXP, DST and XXX)",
    "PEC and PES keep stops as repeated colours: neighbouring blocks have different colours and stops lie between stitches",
    "long stitch handling is not switched off inside the design (longer steps than the format has are refused)",
    "a U01 speed change is followed by a move, a TBF file has at most 256 needle sets",
]
MIN_EVENTS = {"events": 50000}


def cases(tier):
    return 50000 if tier == "quick" else 250000


def case(i, rng, mon):
    ext = FORMATS[i % len(FORMATS)]
    span = rng.choice((20, SPAN[ext]))
    pal = ext in ("pec", "pes")
    sequins = rng.random() < 0.3
    if pal or rng.random() < 0.5:
        rows, nb = gen.design(rng, span=span, speeds=rng.random() < 0.3, sequins=sequins, zero=ext != "u01",
                              change=rng.choice(("mixed", "break", "change", "needle")), needles=rng.random() < 0.3, stops=not pal, huge=0 if pal else 0.02 if ext == "tbf" else 0.004)
    else:
        rows = gen.soup(rng, rng.choice((4, 12, 40)), span=span, drop=(LONG_NONE,) if sequins else (LONG_NONE, SEQUIN_EJECT, SEQUIN_MODE), changeseq=0.1)
    if pal:  # stops between stitches only
        rows = [r for r in rows if base(r[2]) not in (FRAME_EJECT,)]
        k = 1
        while k < len(rows):
            if base(rows[k - 1][2]) == STITCH and base(rows[k][2]) == STITCH and rng.random() < 0.08:
                rows.insert(k, [rows[k - 1][0], rows[k - 1][1], STOP])
                k += 2
            k += 1
    ws, rs = writer_settings(rng, ext), reader_settings(rng, ext)
    if rng.random() < 0.15:
        ws["sequin_contingency"] = rng.choice((SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE) + ((SEQUIN_UTILIZE,) if ext == "dst" else ()))
    if rng.random() < 0.1:
        ws["tie_on"] = True
        ws["tie_off"] = True
    if ext in ("u01", "tbf"):
        ws["needle_count"] = rng.choice((2, 5, 9, 14, 15, 20))
    mon.note("format", ext, ws, rs)
    specs = gen.threads(rng, 30)
    if pal:  # colours the palette tells apart
        from pyembroidery.EmbThreadPec import get_thread_set

        pool = [t.color for t in get_thread_set() if t is not None]
        rng.shuffle(pool)
        specs = [{"color": c} for c in pool[:40]]
    p = gen.make_pattern(rows, specs)
    data = fmts.write(ext, p, ws)
    q = fmts.read(ext, data, rs)
    want, used = rt.expected(ext, rows, len(specs), {k: v for k, v in ws.items()}, rs)
    got = rt.real_rows(q)
    mon.count("events", len(want))
    mon.count("files_" + ext)
    ev = [r for r in want if r[2] != STITCH]
    for r in ev:
        mon.count("event_" + name(r[2]))
    if len(ev) >= 3:
        mon.sig(ext, sorted(ws.items(), key=str), [r[2:] for r in want])
        mon.sample({"format": ext, "source": show(rows, 10), "read back": show(q.stitches, 10)})

    def detail(k):
        return {"options": ws, "reader": rs, "source": show(rows, 100), "read": ["%s %r" % (name(r[2]), r) for r in got[max(0, k - 8) : k + 8]],
                "expected": ["%s %r" % (name(r[2]), r) for r in want[max(0, k - 8) : k + 8]]}

    tol = {"vp3": 1.02, "gcode": 0.0051}.get(ext, 1.01)
    for k in range(max(len(got), len(want))):
        g = got[k] if k < len(got) else None
        w = want[k] if k < len(want) else None
        if g is None or w is None or g[2:] != w[2:]:
            mon.fail("event-changed", "%s: event %d read back is %s, expected %s" % (ext, k, g and (name(g[2]), g), w and (name(w[2]), w)), detail(k))
        if g[2] in (JUMP, SEQUIN_EJECT) and not (abs(g[0] - w[0]) <= tol and abs(g[1] - w[1]) <= tol):
            mon.fail("event-moved", "%s: %s %d read back is at %r, expected %r" % (ext, name(g[2]), k, g[:2], w[:2]), detail(k))
