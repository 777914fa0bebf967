from lib import fmts, gen, rt
from lib.cmds import *

ID = "P01"
LEVEL = "exploration"
RULE = (
    "random designs (up to 70000 stitches, up to 10 m apart, long moves at every limit, trims, stops, jumps, breaks, colour changes, fractional positions) written and read in DST, EXP, "
    "JEF, PEC, PES, VP3, XXX, U01, TBF and G-code with random writer and reader options; oracle: the needle points of the source design; "
    "non-trivial = at least 3 needle points; distinct by (format, needle points)"
)
ASSUMPTIONS = [
    "designs stay within the coordinate range of the formats (moves of VP3 within 16 bits); sequins are decided by P02",
    "PEC and PES may repeat a point in place after a jump or before a change (zero length stitch)",
]
MIN_EVENTS = {"needle_points": 50000}
FORMATS = ("dst", "exp", "jef", "pec", "pes", "vp3", "xxx", "u01", "tbf", "gcode")
SPAN = {"dst": 90, "exp": 100, "jef": 100, "pec": 700, "pes": 700, "vp3": 200, "xxx": 100, "u01": 100, "tbf": 100, "gcode": 300}


def cases(tier):
    return 60000 if tier == "quick" else 250000


def reader_settings(rng, ext):
    s = {}
    if ext in ("dst", "jef"):
        if rng.random() < 0.3:
            s["trim_at"] = rng.choice((1, 2, 3, 4, 5, 8))
        if rng.random() < 0.3:
            s["trim_distance"] = rng.choice((None, 0.5, 3.0, 10, 30))
        if rng.random() < 0.3:
            s["clipping"] = rng.random() < 0.5
        if ext == "jef" and rng.random() < 0.4:
            s["trims"] = rng.random() < 0.5
    return s


def writer_settings(rng, ext):
    s = fmts.random_settings(rng, ext)
    if rng.random() < 0.15:
        s["explicit_trim"] = rng.random() < 0.5
    if rng.random() < 0.1:
        s["full_jump"] = rng.random() < 0.5
    return s


def case(i, rng, mon):
    ext = FORMATS[i % len(FORMATS)]
    mode = rng.choice(("int", "int", "half", "f"))
    span = rng.choice((20, SPAN[ext], SPAN[ext]))
    if i < 4 * len(FORMATS):
        rows = gen.longest(rng, SPAN[ext]) if i < 2 * len(FORMATS) else gen.far(rng, 15000 if ext == "vp3" else 100000)
        mode = "int"
    else:
        rows, nb = gen.design(rng, span=span, mode=mode, speeds=rng.random() < 0.3, box=rng.choice((3000, 9000, 15000)), zero=ext != "u01", huge=0.002)
    if ext == "u01":  # a zero length stitch right after a speed change is not representable
        rows = [r for r in rows if base(r[2]) not in (SLOW, FAST)]
    ws, rs = writer_settings(rng, ext), reader_settings(rng, ext)
    mon.note("format", ext, ws, rs)
    p = gen.make_pattern(rows, gen.threads(rng, 30))
    data = fmts.write(ext, p, ws)
    q = fmts.read(ext, data, rs)
    want = rt.sewn(rows)
    got = [(r[0], r[1]) for r in q.stitches if base(r[2]) == STITCH]
    mon.count("needle_points", len(want))
    mon.count("files_" + ext)
    if len(want) >= 3:
        mon.sig(ext, want)
        mon.sample({"format": ext, "source": show(rows, 10), "read back": show(q.stitches, 10)})
    tol = 1e-9 if mode == "int" else 0.5 + 1e-9
    if ext == "vp3":
        tol = 0.02 if mode == "int" else 1.02
    elif ext == "gcode":
        tol = 0.0051

    def same(a, b):
        return abs(a[0] - b[0]) <= tol and abs(a[1] - b[1]) <= tol

    repeat = ext in ("pec", "pes")
    ks = {0}  # how many points of the design may have been read so far
    pos = (0, 0)
    detail = lambda: {"settings": ws, "reader": rs, "source": show(rows), "read": show(q.stitches)}
    for row in q.stitches:
        at = (row[0], row[1])
        if base(row[2]) == STITCH:
            nk = {k + 1 for k in ks if k < len(want) and same(at, want[k])}
            if repeat and at == pos:
                mon.count("repeats_in_place")
                nk |= ks
            if not nk:
                k = max(ks)
                mon.fail("needle-points-changed", "%s: needle point %d read back is %r, the design has %r (%d read, %d in the design)"
                         % (ext, k, at, want[k] if k < len(want) else None, len(got), len(want)), detail())
            ks = nk
        pos = at
    mon.check(len(want) in ks, "needle-points-lost", "%s: only %d of %d needle points were read back" % (ext, max(ks), len(want)), detail)
