import io

from lib import enc, fmts, gen, rt
from lib.cmds import *

ID = "P12"
LEVEL = "exploration"
RULE = (
    "random designs and hostile command soups with coordinates around every power-of-limit boundary, encoded with random "
    "limits (also under transforms, and with limits changed by commands between), and written in DST, EXP, JEF, PEC, PES, VP3, XXX, U01, TBF and PMV with the default options while a stand-in for the writer records what it is given (limits of the formats restated in lib/rt.py); non-trivial = at least one requested move was longer than its limit; distinct by (settings, emitted steps)"
)
ASSUMPTIONS = [
    "long_stitch_contingency NONE is excluded (it documents that long stitches pass unsplit)",
    "limits are positive numbers",
]
MIN_EVENTS = {"steps": 20000, "split_moves": 500, "format_steps": 100000, "transformed": 2000}


def cases(tier):
    return 50000 if tier == "quick" else 400000


class Recorder:
    """stands in for a writer: has its options, records the pattern it is given, then writes"""

    def __init__(self, writer):
        self.__dict__.update(real=writer, rows=None)

    def __getattr__(self, k):
        return getattr(self.real, k)

    def write(self, pattern, f, settings=None):
        self.__dict__["rows"] = [(r[0], r[1], base(r[2])) for r in pattern.stitches]
        self.real.write(pattern, f, settings)


POSITIONED = (STITCH, NEEDLE_AT, SEW_TO, JUMP, FRAME_EJECT, SEQUIN_EJECT)
FORMATS = [f.ext for f in fmts.MACHINE] + ["pmv"]


def in_format(i, rng, mon):
    from pyembroidery import EmbPattern

    ext = FORMATS[i // 4 % len(FORMATS)]
    lim = rt.LIMITS[ext]
    ms, mj = lim["max_stitch"], lim["max_jump"]
    near = rng.choice((ms, mj, ms * 2, 40))
    x = y = 0
    rows = []
    for _ in range(rng.choice((3, 8, 20))):
        c = rng.choice((STITCH, STITCH, STITCH, JUMP, JUMP, TRIM, COLOR_CHANGE, STOP, SEQUIN_EJECT, SEW_TO, NEEDLE_AT))
        if c not in (TRIM, COLOR_CHANGE, STOP):
            x += rng.choice((0, 1, -1)) * (near + rng.choice((-1, 0, 0, 1, 1, 2, near // 2, near * 2)))
            y += rng.choice((0, 0, 1, -1)) * (near + rng.choice((-1, 0, 0, 1, 1, 2, -near // 2)))
        rows.append([x, y, c])
    if rows[0][2] in (COLOR_CHANGE, TRIM, STOP):
        rows[0][2] = STITCH
    rec = Recorder(fmts.BY[ext].writer())
    mon.note("format", ext, show(rows, 30))
    try:
        EmbPattern.write_embroidery(rec, gen.make_pattern(rows, gen.threads(rng, 30)), io.BytesIO(), None)
    except Exception:  # out of the range of the format: the steps were chosen before
        if rec.rows is None:
            raise
        mon.count("refused")
    px = py = 0
    for n, (x, y, c) in enumerate(rec.rows):
        d = max(abs(x - px), abs(y - py))
        mon.count("format_steps")
        limit = max(mj, ms) if c == JUMP else (ms if c in (STITCH, SEQUIN_EJECT) and n and rec.rows[n - 1][2] in (STITCH, SEQUIN_EJECT) else max(ms, mj)) if c in (STITCH, SEQUIN_EJECT) else 0
        if not d <= limit + 1e-6:
            mon.fail("step-exceeds-format", "the writer of %s is given a %s step of %r units, the format has %r" % (ext, name(c), d, limit), {"source": show(rows, 40), "given": show(rec.rows[max(0, n - 5):n + 5])})
        px, py = x, y
    want, _ = enc.refenc.encode([tuple(r) for r in rows], 30, lim)
    mon.check(len(rec.rows) == len(want), "format-steps", "%s: %d commands are written where the moves need %d" % (ext, len(rec.rows), len(want)),
              lambda: {"source": show(rows, 40), "given": show(rec.rows, 60), "expected": show([o[:3] for o in want], 60)})
    if len(want) > len(rows):
        mon.sig(ext, rec.rows)


def case(i, rng, mon):
    if i % 4 == 3:
        return in_format(i, rng, mon)
    mode = rng.choice(("int", "int", "half", "f"))
    s = enc.settings(rng, long_stitch_contingency=rng.choice((LONG_SEW_TO, LONG_JUMP_NEEDLE, None)), tie_on=None)
    s.pop("long_stitch_contingency", None) if s.get("long_stitch_contingency") == LONG_NONE else None
    lim = s.get("max_stitch", s.get("max_jump", 60))
    span = rng.choice((lim, 60, lim * 3, 300))
    drop = {LONG_NONE}
    if rng.random() < 0.4:
        src, nb = gen.design(rng, span=span, mode=mode, box=20000, sequins=rng.random() < 0.3)
    else:
        src = gen.soup(rng, rng.choice((4, 10, 30, 80)), span=span, mode=mode, box=20000, drop=drop)
    moved = rng.random() < 0.3
    if moved:  # the limits are those of what is emitted, whatever transforms are in force
        s["round"] = False
        src = [[x + rng.random(), y + rng.random(), c] if base(c) in POSITIONED else [x, y, c] for x, y, c in src]
        if rng.random() < 0.4:
            s["scale"] = rng.choice((2, 0.5, (-1, 1), (0.25, 3), 1.7))
        if rng.random() < 0.4:
            s["rotate"] = rng.choice((90, 30, -45, 180))
        if rng.random() < 0.3:
            s["translate"] = (rng.randint(-300, 300), rng.randint(-300, 300))
        for _ in range(rng.choice((0, 1, 2))):
            c = rng.choice((MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_RESET, MATRIX_SCALE, MATRIX_ROTATE))
            ab = [rng.randint(-200, 200), rng.randint(-200, 200)] if c == MATRIX_TRANSLATE else [rng.choice((90, 30, -45)), 0] if c in (MATRIX_ROTATE, MATRIX_ROTATE_ORIGIN) else [rng.choice((2, 0.5, -1)), rng.choice((2, 0.5, 1))]
            src.insert(rng.randrange(len(src) + 1), ab + [c])
        mon.count("transformed")
    if rng.random() < (0.4 if moved else 0.1):  # a limit changed on the fly
        k = rng.randrange(len(src) + 1)
        src.insert(k, [rng.choice(enc.LIMITS), 0, rng.choice((OPTION_MAX_JUMP_LENGTH, OPTION_MAX_STITCH_LENGTH))])
    r = enc.Run(src, gen.threads(rng, 30), s)
    check(r, s, mon)


def check(r, s, mon):
    ms = s.get("max_stitch", enc.refenc.INF)
    mj = s.get("max_jump", enc.refenc.INF)
    opts = [x for x in r.src if base(x[2]) in (OPTION_MAX_JUMP_LENGTH, OPTION_MAX_STITCH_LENGTH)]
    for x in opts:  # either limit may be in force at a given event: use the laxer one
        if base(x[2]) == OPTION_MAX_STITCH_LENGTH:
            ms = max(ms, x[0])
        else:
            mj = max(mj, x[0])
    ties = any(base(x[2]) in (TIE_ON, TIE_OFF, TIE_ON_SMALL, TIE_OFF_SMALL) for x in r.src) or s.get("tie_on") or s.get("tie_off")
    px = py = 0
    after_break = True
    for n, (x, y, c) in enumerate(r.real):
        d = max(abs(x - px), abs(y - py))
        mon.count("steps")
        if c == STITCH:
            limit = mj if after_break else ms
            if ties:  # a lock may stand between the break and the first stitch
                limit = max(ms, mj)
        elif c == JUMP:
            limit = max(mj, ms)
        elif c == SEQUIN_EJECT:
            limit = ms
        else:
            limit = 0
        if c == STITCH:
            after_break = False
        elif c in (TRIM, STOP, COLOR_CHANGE, NEEDLE_SET):
            after_break = True
        if not d <= limit + 1e-6 * max(1, limit if limit != enc.refenc.INF else 1):
            mon.fail(
                "step-exceeds-limit",
                "a %s step of %r units was emitted under limits stitch=%r jump=%r" % (name(c), d, ms, mj),
                r.detail(n),
            )
        px, py = x, y
    splits = len([o for o in r.ref]) - len([o for o in r.src])
    if any(
        max(abs(b[0] - a[0]), abs(b[1] - a[1])) > min(ms, mj) for a, b in zip(r.src, r.src[1:])
    ):
        mon.count("split_moves")
        mon.sig(sorted(s.items(), key=str), r.real)
        mon.sample({"settings": s, "source": show(r.src, 12), "emitted": show(r.real, 20)})
    # no needless and no missing steps: as many steps as the moves require
    if len(r.real) != len(r.ref):
        mon.fail(
            "wrong-number-of-steps",
            "%d commands were emitted where the requested moves need %d" % (len(r.real), len(r.ref)),
            r.detail(enc.first_diff(r.real, [o[:3] for o in r.ref])),
        )
