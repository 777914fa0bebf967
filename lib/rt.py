"""What each machine format can say: the expected events of a design after a write and a read.

expected(ext, rows, nthreads, wset, rset) maps the design through the reference encoder (with the limits of the format, restated
here) and then through the information model of the format. Rows are (x, y, command, needle)."""
from . import refenc
from .cmds import *

LIMITS = {
    "dst": dict(max_jump=121, max_stitch=121, round=True, full_jump=False, sequin_contingency=SEQUIN_UTILIZE, writes_speeds=False),
    "exp": dict(max_jump=127, max_stitch=127, round=True, full_jump=True, sequin_contingency=SEQUIN_JUMP),
    "jef": dict(max_jump=127, max_stitch=127, round=True, full_jump=True, sequin_contingency=SEQUIN_JUMP),
    "pec": dict(max_jump=2047, max_stitch=2047, round=True, full_jump=True, sequin_contingency=SEQUIN_JUMP),
    "pes": dict(max_jump=2047, max_stitch=2047, round=True, full_jump=True, sequin_contingency=SEQUIN_JUMP),
    "vp3": dict(max_jump=3200, max_stitch=255, full_jump=False, sequin_contingency=SEQUIN_JUMP),
    "xxx": dict(max_jump=124, max_stitch=124, round=True, full_jump=False),
    "u01": dict(max_jump=127, max_stitch=127, full_jump=False, sequin_contingency=SEQUIN_JUMP, thread_change_command=NEEDLE_SET, writes_speeds=True),
    "tbf": dict(max_jump=127, max_stitch=127, round=True, full_jump=False, thread_change_command=NEEDLE_SET, explicit_trim=True),
    "gcode": dict(sequin_contingency=SEQUIN_STITCH, writes_speeds=False, scale=(-1, -1)),
    "pmv": dict(max_jump=70, max_stitch=70),
}
ROUNDED = [e for e, d in LIMITS.items() if d.get("round")]


def rnd(v):
    return int(round(v))


def encoded(ext, rows, nthreads, wset=None):
    s = dict(LIMITS[ext])
    s.update(wset or {})
    return refenc.encode(rows, nthreads, s)


def trims_inferred(rows, count, distance, clipping):
    """rows: (x, y, cmd, needle). In every run of jumps a trim is inferred when the thread is uncut and the run reaches the count or
    moves further than the distance; a run that has come back to where it started is cut out."""
    out = []
    cut = True
    run = None  # index in out where the run of jumps starts, and where from
    px = py = 0
    for r in rows:
        c = r[2]
        if c != JUMP:
            run = None
            if c in (STITCH, SEQUIN_EJECT):
                cut = False
            elif c in (COLOR_CHANGE, NEEDLE_SET, TRIM):
                cut = True
            out.append(r)
        else:
            if run is None:
                run = [len(out), px, py, 0]
            run[3] += 1
            out.append(r)
            dx, dy = r[0] - run[1], r[1] - run[2]
            if not cut and (run[3] == count or distance is not None and (abs(dx) > distance or abs(dy) > distance)):
                out.insert(run[0], (run[1], run[2], TRIM, None))
                run[0] += 1
                cut = True
            if clipping and dx == 0 and dy == 0:
                del out[run[0]:]
        px, py = r[0], r[1]
    return out


def m_dst(enc, wset, rset):
    raw = []
    n = wset.get("trim_at", 3)
    mode = False
    for x, y, c in enc:
        if c == TRIM:
            d = 2
            raw.append((x + 2, y + 2, JUMP, None))
            at = 2
            sign = -1
            for _ in range(n - 2):
                at += 4 * sign
                raw.append((x + at, y + at, JUMP, None))
                sign = -sign
            raw.append((x, y, JUMP, None))
        elif c in (COLOR_CHANGE, STOP):
            raw.append((x, y, COLOR_CHANGE, None))
        elif c == SEQUIN_MODE:
            mode = not mode
            raw.append((x, y, c, None))
        elif c == JUMP and mode:
            raw.append((x, y, SEQUIN_EJECT, None))
        elif c in (STITCH, JUMP, SEQUIN_EJECT, END):
            raw.append((x, y, c, None))
        if c == END:
            break
    dist = rset.get("trim_distance")
    return trims_inferred(raw, rset.get("trim_at", 3), None if dist is None else dist * 10, rset.get("clipping", True))


def m_exp(enc, wset, rset):
    out = []
    for x, y, c in enc:
        if c == STOP:
            c = COLOR_CHANGE
        if c in (STITCH, JUMP, TRIM, COLOR_CHANGE, END):
            out.append((x, y, c, None))
    return out


def m_jef(enc, wset, rset):
    raw = []
    odd = False
    for x, y, c in enc:
        if c == COLOR_CHANGE:
            odd = False
            raw.append((x, y, c, None))
        elif c == STOP:
            odd = not odd
            raw.append((x, y, STOP if odd else COLOR_CHANGE, None))
        elif c == TRIM:
            if wset.get("trims", False):
                raw += [(x, y, JUMP, None)] * wset.get("trim_at", 3)
        elif c in (STITCH, JUMP, END):
            raw.append((x, y, c, None))
    count = rset.get("trim_at")
    if rset.get("trims", False) and count is None:
        count = 3
    dist = rset.get("trim_distance", 3.0)
    return trims_inferred(raw, count, None if dist is None else dist * 10, rset.get("clipping", True))


def m_pec(enc, wset, rset):
    out = []
    jumping = first = True
    px = py = 0
    for x, y, c in enc:
        if c == STITCH:
            if jumping and x != px and y != py:
                out.append((px, py, STITCH, None))
            jumping = False
            out.append((x, y, STITCH, None))
        elif c == JUMP:
            if not first:
                out.append((px, py, TRIM, None))
            out.append((x, y, JUMP, None))
            jumping = True
        elif c in (COLOR_CHANGE, STOP):
            if jumping:
                out.append((px, py, STITCH, None))
                jumping = False
            out.append((x, y, c, None))
        elif c == END:
            out.append((x, y, END, None))
        first = False
        px, py = x, y
    return out


def m_vp3(enc, wset, rset):
    out = []
    lx = ly = 0
    if not enc:
        return out
    for k, (x, y, c) in enumerate(enc):
        if c == COLOR_CHANGE:
            out.append((lx, ly, COLOR_CHANGE, None))
            if (x, y) != (0, 0) or (lx, ly) != (0, 0):
                out.append((x, y, JUMP, None))
            lx, ly = x, y
        elif c == STITCH:
            lx += int(x - lx)
            ly += int(y - ly)
            out.append((lx, ly, STITCH, None))
        elif c in (TRIM, END):
            out.append((lx, ly, TRIM, None))
            if c == END:
                out.append((lx, ly, END, None))
    return out


def m_xxx(enc, wset, rset):
    return [(x, y, COLOR_CHANGE if c == STOP else c, None) for x, y, c in enc if c in (STITCH, JUMP, TRIM, COLOR_CHANGE, STOP, END)]


def m_u01(enc, wset, rset, needles=()):
    out = []
    lx = ly = 0
    speed = None
    needles = iter(needles)
    for x, y, c in enc:
        nx, ny = lx + rnd(x - lx), ly + rnd(y - ly)
        if c in (SLOW, FAST):
            speed = c
        elif c in (STITCH, JUMP):
            if speed is not None:
                out.append((lx, ly, speed, None))
            if speed is None or (nx, ny) != (lx, ly):
                out.append((nx, ny, c, None))
            speed = None
        elif c == NEEDLE_SET:
            n = next(needles)
            out.append((nx, ny, NEEDLE_SET, n if n < 15 else n % 15 + 1))
        elif c in (STOP, TRIM, END):
            out.append((nx, ny, c, None))
        lx, ly = nx, ny
    return out


def m_tbf(enc, wset, rset, needles=()):
    out = []
    px = py = 0
    needles = iter(needles)
    for x, y, c in enc:
        if c == JUMP and (x, y) == (px, py):
            c = TRIM
        if c == NEEDLE_SET:
            out.append((x, y, c, next(needles)))
        elif c in (STITCH, JUMP, STOP, TRIM, END):
            out.append((x, y, c, None))
        px, py = x, y
    return out


def m_gcode(enc, wset, rset):
    out = []
    lx = ly = 0
    for x, y, c in enc:
        if c == STITCH:
            lx, ly = -x, -y
            out.append((lx, ly, STITCH, None))
        elif c in (STOP, COLOR_CHANGE):
            out.append((lx, ly, COLOR_CHANGE, None))
        elif c == END:
            out.append((lx, ly, END, None))
    return out


MODEL = {"dst": m_dst, "exp": m_exp, "jef": m_jef, "pec": m_pec, "pes": m_pec, "vp3": m_vp3, "xxx": m_xxx, "u01": m_u01,
         "tbf": m_tbf, "gcode": m_gcode}
# how far a position read back may be from the requested one, for designs with fractional positions
TOL = {"vp3": 1.0, "gcode": 0.0051}


def expected(ext, rows, nthreads, wset=None, rset=None):
    enc, used = encoded(ext, rows, nthreads, wset)
    low = [o[:3] for o in enc]
    if ext != "dst":  # formats without sequins
        to = STITCH if ext == "gcode" else JUMP
        low = [(x, y, to if c == SEQUIN_EJECT else c) for x, y, c in low if c != SEQUIN_MODE]
    if ext in ROUNDED:  # whole units, each step rounded from where the last one ended
        x = y = 0
        for k, o in enumerate(low):
            x, y = x + rnd(o[0] - x), y + rnd(o[1] - y)
            low[k] = (x, y, o[2])
    if ext in ("u01", "tbf"):
        return MODEL[ext](low, wset or {}, rset or {}, [o[4] for o in enc if o[2] == NEEDLE_SET]), used
    return MODEL[ext](low, wset or {}, rset or {}), used


def real_rows(p):
    return [(r[0], r[1], base(r[2]), split(r[2])[1] if base(r[2]) == NEEDLE_SET else None) for r in p.stitches]


def sewn(rows):
    """positions of the requested needle penetrations, up to the end command"""
    out = []
    for r in rows:
        b = base(r[2]) if r[2] != -1 else -1
        if b == END:
            break
        if b in SEWING:
            out.append((r[0], r[1]))
    return out
