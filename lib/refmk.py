"""Independent builders of files in every readable machine format.

make(fmt, rng) -> File(ext, data, rows, colors, texts, settings): bytes and what they encode. Rows are (x, y, command, needle).
Record layouts are restated here from the format descriptions; nothing is imported from the code under test."""
import struct

from . import hufc
from .cmds import *
from .palettes import HUS, JEF, PEC, SEW, SHV

PCM = [0x000000, 0x000080, 0x0000FF, 0x008080, 0x00FFFF, 0x800080, 0xFF00FF, 0x800000, 0xFF0000, 0x008000, 0x00FF00, 0x808000,
       0xFFFF00, 0x808080, 0xC0C0C0, 0xFFFFFF]


class File:
    def __init__(self, ext):
        self.ext = ext
        self.b = bytearray()
        self.x = self.y = 0
        self.rows = []
        self.colors = None
        self.texts = {}
        self.picks = []  # (palette, index) of each thread
        self.thread_texts = []
        self.settings = None
        self.tol = 0
        self.marks = []  # (offset, number of rows) of records

    def put(self, *v):
        self.b += bytes(x & 0xFF for x in v)

    def raw(self, b):
        self.b += b

    def go(self, dx, dy, c, needle=None):
        self.x += dx
        self.y += dy
        self.rows.append((self.x, self.y, c, needle))

    def at(self, x, y, c, needle=None):
        self.x, self.y = x, y
        self.rows.append((x, y, c, needle))

    def mark(self):
        self.marks.append((len(self.b), len(self.rows)))

    def end(self):
        self.go(0, 0, END)


def dd(rng, m, lo=None):
    """a displacement of the range -m..m with its edges"""
    lo = -m if lo is None else lo
    r = rng.random()
    if r < 0.2:
        v = rng.choice((0, 0, 1, -1, 2, m, m - 1, lo, lo + 1, m // 2, m // 2 + 1, lo // 2))
    elif r < 0.7:
        v = rng.randint(max(lo, -12), min(12, m))
    else:
        v = rng.randint(lo, m)
    return max(lo, min(m, v))


def junk(rng, n):
    return bytes(rng.randrange(256) for _ in range(n))


def count(rng):
    return rng.choice((0, 1, 2, 4, 9, 25, 60, 150))


def ops(rng, kinds):
    """a random operation sequence: mostly stitches, a few of everything else, sometimes in runs"""
    n = count(rng)
    out = []
    others = [k for k in kinds if k not in ("stitch",)]
    while len(out) < n:
        if rng.random() < 0.7 or not others:
            out += ["stitch"] * rng.randint(1, 6)
        else:
            k = rng.choice(others)
            out += [k] * rng.choice((1, 1, 1, 2, 4) if k in ("move", "trim") else (1, 1, 1, 2))
    return out


# ------------------------------------------------------------------ sign-flag records
def flags(dx, dy, neg_x, neg_y, rng):
    """magnitudes and flag bits; a zero may carry its sign"""
    f = 0
    if dx < 0 or dx == 0 and rng.random() < 0.1:
        f |= neg_x
    if dy < 0 or dy == 0 and rng.random() < 0.1:
        f |= neg_y
    return abs(dx), abs(dy), f


def mk_100(rng):
    f = File("100")
    for k in ops(rng, ("stitch", "move", "change")):
        f.mark()
        if k == "change":
            f.put(rng.choice((0x00, 0x10, 0x62, 0x7E)), rng.randrange(256), rng.randrange(256), rng.randrange(256))
            f.go(0, 0, COLOR_CHANGE)
            continue
        dx, dy = dd(rng, 127), dd(rng, 127)
        b0 = 0x61 if k == "stitch" else rng.choice((0x01, 0x03, 0x21, 0x63))
        sm = lambda v: v if v >= 0 else 0x80 - v
        f.put(b0, rng.randrange(256), sm(dx), sm(-dy) if dy else 0)
        f.go(dx, dy, STITCH if k == "stitch" else JUMP)
    f.mark()
    f.end()
    return f


def mk_10o(rng):
    f = File("10o")
    if rng.random() < 0.5:
        f.put(0x8A, rng.randrange(256), rng.randrange(256))
    for k in ops(rng, ("stitch", "move", "change", "stop", "trim", "start")):
        f.mark()
        if k in ("stitch", "move"):
            dx, dy = dd(rng, 255), dd(rng, 255)
            ax, ay, fl = flags(dx, -dy, 0x20, 0x40, rng)
            f.put((0x00 if k == "stitch" else 0x10) | fl | rng.choice((0, 0x80)), ay, ax)
            f.go(dx, dy, STITCH if k == "stitch" else JUMP)
        else:
            f.put({"change": 0x85, "stop": 0x82, "trim": 0x81, "start": 0x8A}[k], rng.randrange(256), rng.randrange(256))
            if k != "start":
                f.go(0, 0, {"change": COLOR_CHANGE, "stop": STOP, "trim": TRIM}[k])
    f.mark()
    if rng.random() < 0.8:
        f.put(0x87, 0, 0)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_bro(rng):
    f = File("bro")
    f.raw(junk(rng, 0x100))
    for k in ops(rng, ("stitch", "move", "needle", "nop")):
        f.mark()
        if k == "stitch":
            dx, dy = dd(rng, 127, -127), dd(rng, 127, -127)
            f.put(dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "nop":
            f.put(0x80, rng.randrange(256), 0x00)
        else:
            dx, dy = dd(rng, rng.choice((127, 3000, 32767))), dd(rng, rng.choice((127, 3000, 32767)))
            c = rng.choice((0x7E, 0x03))
            if k == "needle":
                c = rng.randint(0xE1, 0xEF)
                f.go(0, 0, NEEDLE_SET, c - 0xE0)
            f.put(0x80, rng.randrange(256), c)
            f.raw(struct.pack("<hh", dx, -dy))
            f.go(dx, dy, JUMP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0x80, 0, rng.choice((0x02, 0xE0)))
        f.raw(junk(rng, rng.choice((0, 4, 20))))
    f.end()
    return f


BARUDAN = ("stitch", "move", "fast", "fastmove", "slow", "slowmove", "trim", "trim2", "stop", "needle")


def barudan_ops(f, rng):
    for k in ops(rng, BARUDAN):
        f.mark()
        dx, dy = dd(rng, 255), dd(rng, 255)
        if k not in ("stitch", "move") and rng.random() < 0.4:
            dx = dy = 0
        elif k not in ("stitch", "move") and rng.random() < 0.3:
            dx, dy = rng.choice(((dx, 0), (0, dy)))
        ax, ay, fl = flags(dx, -dy, 0x20, 0x40, rng)
        needle = rng.randint(1, 15)
        code = {"stitch": 0, "move": 1, "fast": 2, "fastmove": 3, "slow": 4, "slowmove": 5, "trim": 6, "trim2": 7, "stop": 8, "needle": 8 + needle}[k]
        f.put(0x80 | fl | code, ay, ax)
        if k in ("stitch", "move"):
            f.go(dx, dy, STITCH if k == "stitch" else JUMP)
            continue
        if k == "needle":
            f.go(0, 0, NEEDLE_SET, needle)
        else:
            f.go(0, 0, {"fast": FAST, "fastmove": FAST, "slow": SLOW, "slowmove": SLOW, "trim": TRIM, "trim2": TRIM, "stop": STOP}[k])
        if dx or dy:
            f.go(dx, dy, STITCH if k in ("fast", "slow") else JUMP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0xF8, 0, 0)
        if rng.random() < 0.5:
            f.put(0x87, 0, 0, 0x2B, 1, 2)
    f.end()


def mk_dat_barudan(rng):
    f = File("dat")
    barudan_ops(f, rng)
    if not f.b:
        f.put(0xF8, 0, 0)
    return f


def mk_u01(rng):
    f = File(rng.choice(("u00", "u01", "u02")))
    f.raw(junk(rng, 0x100))
    barudan_ops(f, rng)
    return f


def mk_dat_sunstar(rng):
    f = File("dat")
    f.put(rng.randrange(0x80))
    f.raw(junk(rng, 0xFF))
    for k in ops(rng, ("stitch", "move", "trim", "change", "stitch84")):
        f.mark()
        dx, dy = dd(rng, 127), dd(rng, 127)
        if k in ("trim", "change") and rng.random() < 0.4:
            dx = dy = 0
        elif k in ("trim", "change") and rng.random() < 0.3:
            dx, dy = rng.choice(((dx, 0), (0, dy)))
        sm = lambda v: v if v >= 0 else 0x80 | -v
        f.put(sm(dx), sm(-dy), {"stitch": 7, "move": 4, "trim": 0x80, "change": 0x87, "stitch84": 0x84}[k])
        if k in ("trim", "change"):
            f.go(0, 0, TRIM if k == "trim" else COLOR_CHANGE)
            if dx or dy:
                f.go(dx, dy, JUMP)
        else:
            f.go(dx, dy, JUMP if k == "move" else STITCH)
    f.mark()
    f.put(0, 0, 0)
    f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def dst_header(f, rng):
    name = "".join(rng.choice("abcXYZ 019") for _ in range(rng.randint(1, 16))).strip() or "x"
    h = ("LA:%-16s\rST:%7d\rCO:%3d\r+X:%5d\r-X:%5d\r+Y:%5d\r-Y:%5d\rAX:+%5d\rAY:-%5d\rMX:+    0\rMY:+    0\rPD:******\r" % (
        name, rng.randrange(10000), rng.randrange(20), 1, 2, 3, 4, 5, 6)).encode()
    if rng.random() < 0.4:
        a = "".join(rng.choice("abcXYZ019") for _ in range(rng.randint(1, 16)))
        h += b"AU:" + a.encode() + b"\r"
        f.texts["author"] = a
    f.texts["name"] = name
    h += b"\x1a"
    f.raw(h + b" " * (512 - len(h)))


def mk_dsb(rng):
    f = File("dsb")
    dst_header(f, rng)
    for k in ops(rng, ("stitch", "move", "trim", "stop", "needle")):
        f.mark()
        if k in ("stitch", "move"):
            dx, dy = dd(rng, 255), dd(rng, 255)
            ax, ay, fl = flags(dx, -dy, 0x20, 0x40, rng)
            f.put(rng.choice((0, 0x80)) | fl | (k == "move"), ay, ax)
            f.go(dx, dy, STITCH if k == "stitch" else JUMP)
        else:
            n = rng.randint(1, 15)
            f.put({"trim": 0xE7, "stop": 0xE8, "needle": 0xE8 + n}[k] if n < 15 or k != "needle" else 0xF7, rng.randrange(256), rng.randrange(256))
            f.go(0, 0, {"trim": TRIM, "stop": STOP, "needle": NEEDLE_SET}[k], n if k == "needle" else None)
    f.mark()
    if rng.random() < 0.8:
        f.put(0xF8, 0, 0)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def z_ops(f, rng):
    for k in ops(rng, ("stitch", "move", "trim", "stop", "needle")):
        f.mark()
        if k in ("stitch", "move"):
            dx, dy = dd(rng, 255), dd(rng, 255)
            ax, ay, fl = flags(dx, -dy, 0x40, 0x20, rng)
            f.put(ay, ax, fl | (k == "move"))
            f.go(dx, dy, STITCH if k == "stitch" else JUMP)
        else:
            n = rng.randint(0, 11)
            # 83 85 ... 99: odd codes; the even ones select the same needles; 80/81 patterns would be stitches and moves
            f.put(rng.randrange(256), rng.randrange(256), {"trim": 0x9B, "stop": 0x82, "needle": 0x83 + 2 * n + rng.choice((0, 1))}[k])
            f.go(0, 0, {"trim": TRIM, "stop": STOP, "needle": NEEDLE_SET}[k], n if k == "needle" else None)
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, rng.choice((0x9D, 0x1F, 0xFF)))
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()


def mk_dsz(rng):
    f = File("dsz")
    dst_header(f, rng)
    z_ops(f, rng)
    return f


def mk_fxy(rng):
    f = File(rng.choice(("f00", "f01", "f02")))
    f.raw(junk(rng, 0x100))
    z_ops(f, rng)
    return f


def mk_gt(rng):
    f = File("gt")
    f.raw(junk(rng, 0x200))
    z_ops(f, rng)
    return f


# ------------------------------------------------------------------ Tajima
def tajima(dx, dy, c):
    """balanced ternary with weights 81 27 9 3 1; bits as in the Tajima format"""
    bits_x = {1: (0, 0, 1), 3: (1, 0, 1), 9: (0, 2, 3), 27: (1, 2, 3), 81: (2, 2, 3)}
    bits_y = {1: (0, 7, 6), 3: (1, 7, 6), 9: (0, 5, 4), 27: (1, 5, 4), 81: (2, 5, 4)}
    b = [0, 0, c]
    for v, table in ((dx, bits_x), (-dy, bits_y)):
        for w in (81, 27, 9, 3, 1):
            byte, plus, minus = table[w]
            half = (w - 1) // 2
            if v > half:
                b[byte] |= 1 << plus
                v -= w
            elif v < -half:
                b[byte] |= 1 << minus
                v += w
        assert v == 0
    return b


def dst_ops(f, rng):
    from . import rt

    mode = False
    for k in ops(rng, ("stitch", "move", "change", "sequin")):
        f.mark()
        dx, dy = dd(rng, 121), dd(rng, 121)
        if k == "stitch":
            f.put(*tajima(dx, dy, 0x03))
            f.go(dx, dy, STITCH)
        elif k == "move":
            f.put(*tajima(dx, dy, 0x83))
            f.go(dx, dy, SEQUIN_EJECT if mode else JUMP)
        elif k == "change":
            if rng.random() < 0.7:
                dx = dy = 0
            f.put(*tajima(dx, dy, 0xC3))
            f.go(dx, dy, COLOR_CHANGE)
        else:
            f.put(*tajima(0, 0, 0x43))
            f.go(0, 0, SEQUIN_MODE)
            mode = not mode
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, 0xF3)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    s = {}
    if rng.random() < 0.7:
        s["trim_at"] = rng.choice((1, 2, 3, 5, 8))
    if rng.random() < 0.4:
        s["trim_distance"] = rng.choice((None, 1.0, 3.0, 12.0))
    if rng.random() < 0.5:
        s["clipping"] = rng.random() < 0.5
    d = s.get("trim_distance")
    f.settings = s or None
    f.raw_rows = list(f.rows)
    f.infer = (s.get("trim_at", 3), d * 10 if d is not None else None, s.get("clipping", True))
    f.rows = rt.trims_inferred(f.rows, *f.infer)


def mk_dst(rng):
    f = File("dst")
    dst_header(f, rng)
    dst_ops(f, rng)
    return f


def mk_exy(rng):
    f = File(rng.choice(("e00", "e01", "e02")))
    f.raw(junk(rng, 0x100))
    dst_ops(f, rng)
    return f


def mk_tap(rng):
    f = File("tap")
    dst_ops(f, rng)
    return f


# ------------------------------------------------------------------ two byte records with 0x80 escapes
def exp_ops(f, rng):
    for k in ops(rng, ("stitch", "move", "trim", "change", "stitch2")):
        f.mark()
        dx, dy = dd(rng, 127, -127), dd(rng, 127, -127)
        if k == "stitch":
            if rng.random() < 0.05:
                dy = 128
            f.put(dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "move":
            f.put(0x80, 0x04, dx, -dy)
            f.go(dx, dy, JUMP)
        elif k == "stitch2":
            f.put(0x80, 0x02, dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "trim":
            f.put(0x80, 0x80, 0x07, 0x00)
            f.go(0, 0, TRIM)
        else:
            if rng.random() < 0.5:
                dx = dy = 0
            elif rng.random() < 0.5:
                dx, dy = rng.choice(((dx, 0), (0, dy)))
            f.put(0x80, 0x01, dx, -dy)
            f.go(0, 0, COLOR_CHANGE)
            if dx or dy:
                f.go(dx, dy, JUMP)
    f.mark()
    f.end()


def mk_exp(rng):
    f = File("exp")
    exp_ops(f, rng)
    return f


def mk_stx(rng):
    f = File("stx")
    pre = rng.randint(0, 60)
    f.raw(b"STX" + junk(rng, 9))
    start = 0x18 + pre
    f.raw(struct.pack("<III", 0x18, 0x18, start))
    f.raw(junk(rng, pre))
    exp_ops(f, rng)
    return f


def mk_jef(rng):
    from . import rt

    f = File("jef")
    colors = []
    body = bytearray()
    marks = []

    def changes():
        colors.append(None)

    slots = [rng.randint(1, 78)]
    f.colors = [JEF[slots[0]]]
    f.picks = [("JEF", slots[0])]
    for k in ops(rng, ("stitch", "move", "change", "stop")):
        marks.append((len(body), len(f.rows)))
        dx, dy = dd(rng, 127, -127), dd(rng, 127, -127)
        if k == "stitch":
            body += bytes((dx & 0xFF, -dy & 0xFF))
            f.go(dx, dy, STITCH)
        elif k == "move":
            body += bytes((0x80, 0x02, dx & 0xFF, -dy & 0xFF))
            f.go(dx, dy, JUMP)
        elif k == "change":
            body += b"\x80\x01\x00\x00"
            slots.append(rng.choice((rng.randint(1, 78), -rng.randint(1, 78))))
            f.colors.append(JEF[abs(slots[-1])])
            f.picks.append(("JEF", abs(slots[-1])))
            f.go(0, 0, COLOR_CHANGE)
        else:
            body += b"\x80\x01\x00\x00"
            slots.append(0)
            f.go(0, 0, STOP)
    marks.append((len(body), len(f.rows)))
    extra = rng.choice((0, 0, 4, 40))
    off = 116 + 8 * len(slots) + extra
    f.raw(struct.pack("<II", off, 0x14) + b"20200101120000\x00\x00")
    f.raw(struct.pack("<II", len(slots), len(body) // 2))
    f.raw(junk(rng, 116 - len(f.b)))
    for s in slots:
        f.raw(struct.pack("<i", s))
    for s in slots:
        f.raw(struct.pack("<i", 0x0D))
    f.raw(junk(rng, extra))
    assert len(f.b) == off
    f.marks = [(off + a, b) for a, b in marks]
    f.raw(bytes(body))
    if rng.random() < 0.9:
        f.raw(b"\x80\x10" + rng.choice((b"", b"\x00\x00", junk(rng, 20))))
    f.end()
    s = {}
    if rng.random() < 0.6:
        s["trim_distance"] = rng.choice((None, 1.0, 3.0, 12.0))
    if rng.random() < 0.4:
        s["trims"] = rng.random() < 0.6
    if rng.random() < 0.3:
        s["trim_at"] = rng.choice((1, 2, 3, 5))
    if rng.random() < 0.4:
        s["clipping"] = rng.random() < 0.5
    f.settings = s or None
    n = s.get("trim_at")
    if s.get("trims") and n is None:
        n = 3
    d = s.get("trim_distance", 3.0)
    f.raw_rows = list(f.rows)
    f.infer = (n, d * 10 if d is not None else None, s.get("clipping", True))
    f.rows = rt.trims_inferred(f.rows, *f.infer)
    return f


def mk_jpx(rng):
    f = File("jpx")
    n = rng.randint(0, 9)
    pre = rng.randint(0, 30)
    f.raw(struct.pack("<I", 4 + 0x1C + 4 + 0x18 + 4 * n + pre) + junk(rng, 0x1C) + struct.pack("<I", n) + junk(rng, 0x18))
    for _ in range(n):
        f.raw(struct.pack("<I", rng.randrange(80)))
    f.ncolors = n
    f.raw(junk(rng, pre))
    for k in ops(rng, ("stitch", "move", "change")):
        f.mark()
        dx, dy = dd(rng, 127, -127), dd(rng, 127, -127)
        if k == "stitch":
            f.put(dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "move":
            f.put(0x80, 0x02, dx, -dy)
            f.go(dx, dy, JUMP)
        else:
            r = rng.random()
            if r < 0.5:
                dx = dy = 0
            elif r < 0.7:
                dx, dy = rng.choice(((dx, 0), (0, dy)))
            f.put(0x80, 0x01, dx, -dy)
            f.go(0, 0, COLOR_CHANGE)
            if dx or dy:
                f.go(dx, dy, JUMP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0x80, 0x10, 0, 0)
        f.raw(junk(rng, rng.choice((0, 4, 20))))
    f.end()
    return f


def mk_emd(rng):
    f = File("emd")
    f.raw(junk(rng, 0x30))
    for k in ops(rng, ("stitch", "move", "change", "trim", "nop")):
        f.mark()
        dx, dy = dd(rng, 127, -127), dd(rng, 127, -127)
        if k == "stitch":
            f.put(dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "move":
            f.put(0x80, 0x80, dx, -dy)
            f.go(dx, dy, JUMP)
        elif k == "change":
            f.put(0x80, 0x2A)
            f.go(0, 0, COLOR_CHANGE)
        elif k == "trim":
            f.put(0x80, rng.choice((0xAD, 0x90)))
            f.go(0, 0, TRIM)
        else:
            f.put(0x80, 0x7D)
    f.mark()
    if rng.random() < 0.8:
        f.put(0x80, 0xFD)
        f.raw(junk(rng, rng.choice((0, 4, 20))))
    f.end()
    return f


def mk_sew(rng):
    f = File("sew")
    n = rng.randint(0, 12)
    f.colors = []
    f.raw(struct.pack("<H", n))
    for _ in range(n):
        k = rng.randrange(len(SEW))
        f.raw(struct.pack("<H", k))
        f.colors.append(SEW[k])
        f.picks.append(("SEW", k))
    f.raw(junk(rng, 0x1D78 - len(f.b)))
    for k in ops(rng, ("stitch", "move", "change", "stitch10")):
        f.mark()
        dx, dy = dd(rng, 127, -127), dd(rng, 127, -127)
        if k == "stitch":
            f.put(dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "move":
            f.put(0x80, rng.choice((0x02, 0x04)), dx, -dy)
            f.go(dx, dy, JUMP)
        elif k == "stitch10":
            f.put(0x80, 0x10, dx, -dy)
            f.go(dx, dy, STITCH)
        else:
            f.put(0x80, rng.choice((1, 1, 3, 0x11)), 0, 0)
            f.go(0, 0, COLOR_CHANGE)
    f.mark()
    if rng.random() < 0.8:
        f.put(0x80, 0x80, 0, 0)
        f.raw(junk(rng, rng.choice((0, 4, 20))))
    f.end()
    return f


# ------------------------------------------------------------------ other three byte records
def mk_inb(rng):
    f = File("inb")
    f.raw(bytes(rng.randrange(256) for _ in range(16)) * 0x200)
    for k in ops(rng, ("stitch", "move", "change")):
        f.mark()
        dx, dy = dd(rng, 255), dd(rng, 255)
        ax, ay, fl = flags(dx, -dy, 0x40, 0x20, rng)
        f.put(ax, ay, fl | rng.choice((0, 0x80, 0x10)) | {"stitch": 0, "change": 1, "move": 2}[k])
        f.go(dx, dy, {"stitch": STITCH, "move": JUMP, "change": COLOR_CHANGE}[k])
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, 4)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_ksm(rng):
    f = File("ksm")
    f.raw(junk(rng, 0x200))
    trimmed = False
    sewn = False
    for k in ops(rng, ("stitch", "trim", "sew", "needle", "stop", "pre")):
        f.mark()
        dx, dy = dd(rng, 255), dd(rng, 255)
        if k != "stitch" and rng.random() < 0.6:
            dx = dy = 0
        ax, ay, fl = flags(dx, -dy, 0x40, 0x20, rng)
        n = rng.randint(1, 8)
        code = {"stitch": 0, "trim": rng.choice((0x07, 0x13, 0x1D)), "sew": rng.choice((0x17, 0x18, 0x19)), "needle": 0x0A + n, "stop": 5, "pre": 0x1B}[k]
        f.put(ay, ax, fl | rng.choice((0, 0x80)) | code)
        if dx or dy:
            f.go(dx, dy, JUMP if trimmed else STITCH)
            sewn = sewn or not trimmed
        if k == "trim":
            if sewn:
                f.go(0, 0, TRIM)
            trimmed = True
        elif k in ("sew", "pre"):
            trimmed = False
        elif k == "needle":
            f.go(0, 0, NEEDLE_SET, n)
            trimmed = True
        elif k == "stop":
            f.go(0, 0, STOP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, 0x88)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_new(rng):
    f = File("new")
    f.raw(junk(rng, 2))
    for k in ops(rng, ("stitch", "move", "change")):
        f.mark()
        dx, dy = dd(rng, 255), dd(rng, 255)
        ax, ay, fl = flags(dx, -dy, 0x40, 0x20, rng)
        if k == "change":
            f.put(rng.randrange(256), rng.randrange(256), rng.choice((0x02, 0x82, 0x03, 0x12)))
            f.go(0, 0, COLOR_CHANGE)
            continue
        f.put(ax, ay, fl | rng.choice((0, 0x80)) | (1 if k == "move" else 0))
        f.go(dx, dy, STITCH if k == "stitch" else JUMP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, 0x11)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_stc(rng):
    f = File("stc")
    f.raw(junk(rng, 0x28))
    for k in ops(rng, ("stitch", "move", "needle")):
        f.mark()
        dx, dy = dd(rng, 127, -128), dd(rng, 128, -127)
        if k == "needle":
            n = rng.randint(1, 22)
            f.put(rng.randrange(256), rng.randrange(256), n + 2)
            f.go(0, 0, NEEDLE_SET, n)
            continue
        f.put(dx, -dy, 1 if k == "stitch" else 0)
        f.go(dx, dy, STITCH if k == "stitch" else JUMP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, 25)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_zxy(rng):
    f = File("zxy")
    pre = rng.randint(0, 300)
    f.raw(junk(rng, 1) + struct.pack(">H", pre) + junk(rng, pre))
    for k in ops(rng, ("stitch", "move", "needle")):
        f.mark()
        dx, dy = dd(rng, 255), dd(rng, 255)
        ax, ay, fl = flags(dx, -dy, 0x08, 0x04, rng)
        if k == "needle":
            n = rng.randint(0, 15)
            f.put(0x20, rng.randrange(255), n)
            f.go(0, 0, NEEDLE_SET, n)
            continue
        f.put(fl | (0 if k == "stitch" else 2), ax, ay)
        f.go(dx, dy, STITCH if k == "stitch" else JUMP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0x20, 0xFF, rng.randrange(256))
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_zhs(rng):
    f = File("zhs")
    n = rng.randint(0, 8)
    f.colors = [rng.randrange(1 << 24) for _ in range(n)]
    f.thread_texts = []
    head = bytearray([n])
    for c in f.colors:
        head += struct.pack(">I", c)[1:]
    text = ""
    for _ in range(n if rng.random() < 0.8 else rng.randint(0, n)):
        w = ["".join(rng.choice("abcXYZ 019é") for _ in range(rng.randint(lo, 9))).strip() or "q" for lo in (1, 1, 2)]
        if len(w[2]) < 2:
            w[2] += "7"
        text += "&$%s&#%s&#%s%s" % (w[0], w[1], w[2], "XY")
        f.thread_texts.append({"chart": w[0], "description": w[1], "catalog_number": w[2]})
    head += struct.pack("<H", len(text.encode("utf8"))) + text.encode("utf8")
    body = bytearray()
    marks = []

    def rec(ctrl, x, y):
        def enc(v):
            assert v not in (63, -63) and -129 <= v <= 128
            return (v - 1 if v >= 64 else v + 1 if v <= -64 else v) & 0xFF
        x, y = enc(x), enc(y)
        return bytes((ctrl, (x & 0x55) | (y & 0xAA), (x & 0xAA) | (y & 0x55)))

    def val(m=128):
        while True:
            v = dd(rng, m, -m)
            if v not in (63, -63):
                return v

    for k in ops(rng, ("stitch", "move", "change", "long", "longmove")):
        marks.append((len(body), len(f.rows)))
        if rng.random() < 0.1:
            body += bytes((0x10, rng.randrange(256), rng.randrange(256)))
        if k == "change":
            if rng.random() < 0.3:
                body += rec(0x41, val(), val())  # what was gathered is dropped by a change
            body += rec(0x04, val(), val())
            f.go(0, 0, COLOR_CHANGE)
            continue
        dx = dy = 0
        if k.startswith("long"):
            for _ in range(rng.randint(1, 5)):
                a, b = val(), val()
                body += rec(0x41, a, b)
                dx += a
                dy += b
        a, b = val(), val()
        dx += a
        dy += b
        body += rec(0x01 if k.endswith("move") else 0x02, a, b)
        f.go(dx, -dy, JUMP if k.endswith("move") else STITCH)
    marks.append((len(body), len(f.rows)))
    body += rec(0x80, 0, 0) + junk(rng, rng.choice((0, 9)))
    f.end()
    gap = rng.randint(0, 20)
    if rng.random() < 0.5:
        hs, ss = 0x17 + gap, 0x17 + gap + len(head)
        f.raw(junk(rng, 0x0F) + struct.pack("<II", ss, hs) + junk(rng, gap) + bytes(head) + bytes(body))
    else:
        ss, hs = 0x17 + gap, 0x17 + gap + len(body)
        f.raw(junk(rng, 0x0F) + struct.pack("<II", ss, hs) + junk(rng, gap) + bytes(body) + bytes(head))
    f.marks = [(ss + a, b) for a, b in marks]
    return f


def mk_mit(rng):
    f = File("mit")
    prev = -1
    for k in ops(rng, ("stitch", "move", "change", "other")):
        f.mark()
        dx, dy = dd(rng, 31), dd(rng, 31)
        ctrl = {"stitch": rng.choice((7, 4, 5, 7)), "move": 12, "change": 8, "other": rng.choice((1, 2, 3, 6, 9, 10, 11, 13, 14, 15))}[k]
        x, y = abs(dx), abs(dy)
        b0 = x | (0x80 if dx < 0 else 0) | ((ctrl >> 2) & 3) << 5
        b1 = y | (0x80 if -dy < 0 else 0) | (ctrl & 3) << 5
        f.put(b0, b1)
        if k == "change":
            if prev == 7:
                f.go(0, 0, COLOR_CHANGE)
        else:
            f.go(2 * dx, 2 * dy, JUMP if k == "move" else STITCH)
        prev = ctrl
    f.mark()
    f.put(0, 0)
    f.end()
    f.until_end = True
    return f


def mk_max(rng):
    f = File("max")
    f.raw(junk(rng, 0xD5))
    n = count(rng)
    f.raw(struct.pack("<I", n))
    f.tol = 1e-6
    for _ in range(n):
        f.mark()
        x, y = dd(rng, rng.choice((100, 5000, 0x7FFFFF))), dd(rng, rng.choice((100, 5000, 0x7FFFFF)))
        f.raw(struct.pack("<i", x)[:3] + junk(rng, 1) + struct.pack("<i", y)[:3] + junk(rng, 1))
        f.at(x * 1.235, y * 1.235, STITCH)
    f.mark()
    f.raw(junk(rng, rng.choice((0, 9))))
    f.end()
    return f


def pc_ops(f, rng, big):
    f.tol = 1e-6
    recs = ops(rng, ("stitch", "move", "change"))
    f.raw(struct.pack(">H" if big else "<H", len(recs)))
    for k in recs:
        f.mark()
        x, y = dd(rng, rng.choice((100, 5000, 0x7FFFFF))), dd(rng, rng.choice((100, 5000, 0x7FFFFF)))
        ctrl = {"stitch": 0, "move": rng.choice((4, 6)), "change": rng.choice((1, 3, 5))}[k]
        if big:
            f.raw(struct.pack(">i", x)[1:] + junk(rng, 1) + struct.pack(">i", -y)[1:] + junk(rng, 1) + bytes([ctrl]))
        else:
            f.raw(junk(rng, 1) + struct.pack("<i", x)[:3] + junk(rng, 1) + struct.pack("<i", -y)[:3] + bytes([ctrl]))
        if k == "change":
            f.go(0, 0, COLOR_CHANGE)
        else:
            f.at(x * 5.0 / 3.0, y * 5.0 / 3.0, STITCH if k == "stitch" else JUMP)
    f.mark()
    f.end()


def mk_pc(rng):
    f = File(rng.choice(("pcd", "pcq", "pcs")))
    n = rng.randint(0, 16)
    f.raw(bytes((0x32, rng.randrange(4))) + struct.pack("<H", n))
    f.colors = []
    for _ in range(n):
        c = rng.randrange(1 << 24)
        f.colors.append(c)
        f.raw(struct.pack(">I", c)[1:] + b"\x00")
    pc_ops(f, rng, False)
    return f


def mk_pcm(rng):
    f = File("pcm")
    n = rng.randint(0, 16)
    f.raw(junk(rng, 2) + struct.pack(">H", n))
    f.colors = []
    for _ in range(n):
        k = rng.randrange(16)
        f.colors.append(PCM[k])
        f.thread_texts.append({"description": "PCM Color %d" % (k + 1)})
        f.raw(struct.pack(">H", k))
    pc_ops(f, rng, True)
    return f


def mk_spx(rng):
    f = File("spx")
    f.raw(junk(rng, 0x11E))
    for _ in range(count(rng)):
        f.mark()
        dx = dd(rng, rng.choice((100, 32767)))
        up = dd(rng, rng.choice((100, 32767)))
        c = dd(rng, 127, -128)
        f.raw(junk(rng, 2) + struct.pack(">hhb", up, dx, c) + junk(rng, 2))
        f.go(dx, -up - c, STITCH)
    f.mark()
    f.until_end = False
    return f


# ------------------------------------------------------------------ Brother
def pec_value(v, code, rng):
    """a coordinate: 7 bit if it fits and no code is needed, else 12 bit"""
    if code == 0 and -64 <= v <= 63 and rng.random() < 0.9:
        return bytes([v & 0x7F])
    v &= 0xFFF
    return bytes([0x80 | code | v >> 8, v & 0xFF])


def pec_ops(rng, slots_for_changes):
    """-> (bytes, rows, marks) of a PEC stitch section; changes use `slots_for_changes` (a list of bools: True = stop)"""
    f = File("pec")
    todo = list(slots_for_changes)
    seq = ops(rng, ("stitch", "move", "trim"))
    places = sorted(rng.randint(0, len(seq)) for _ in todo)
    for j, p in reversed(list(enumerate(places))):
        seq.insert(p, ("change", j))
    first = next((k for k in seq if k == "stitch" or isinstance(k, tuple)), None)
    if isinstance(first, tuple) and any(slots_for_changes):
        seq.insert(0, "stitch")  # stops before anything is sewn are outside the domain
    for k in seq:
        f.mark()
        if isinstance(k, tuple):
            f.put(0xFE, 0xB0, (2, 1)[k[1] % 2])
            f.go(0, 0, STOP if slots_for_changes[k[1]] else COLOR_CHANGE)
            continue
        dx = dd(rng, rng.choice((63, 2047)), rng.choice((-64, -2048)) if rng.random() < 0.3 else None)
        dy = dd(rng, rng.choice((63, 2047)), rng.choice((-64, -2048)) if rng.random() < 0.3 else None)
        code = {"stitch": 0, "move": 0x10, "trim": 0x20}[k]
        if k == "stitch":
            f.raw(pec_value(dx, 0, rng) + pec_value(dy, 0, rng))
        else:
            f.raw(pec_value(dx, code, rng) + pec_value(dy, rng.choice((code, code, 0)), rng))
        if k == "trim":
            f.go(0, 0, TRIM)
        f.go(dx, dy, STITCH if k == "stitch" else JUMP)
    f.mark()
    f.put(0xFF, 0x00)
    f.end()
    return bytes(f.b), f.rows, f.marks


def slots(rng, space, most=12):
    """colour codes of the blocks; an equal neighbour is a stop"""
    n = rng.choice((1, 1, 2, 3, 5, most))
    out = [rng.randint(1, space)]
    while len(out) < n:
        out.append(out[-1] if rng.random() < 0.25 else rng.randint(1, space))
    return out, [b == a for a, b in zip(out, out[1:])]


def pec_section(f, rng, codes, stops):
    label = "".join(rng.choice("abcXYZ019") for _ in range(rng.randint(1, 8)))
    f.texts["Name"] = label
    f.raw(b"LA:" + ("%-16s" % label).encode() + b"\r" + b" " * 12 + b"\xff\x00")
    stride, height = 6, 38
    f.put(stride, height)
    f.raw(b" " * 12)
    f.put(len(codes) - 1, *codes)
    f.raw(b" " * (0x1D0 - (len(codes) - 1)))
    body, rows, marks = pec_ops(rng, stops)
    start = len(f.b)
    f.raw(struct.pack("<I", 5 + 11 + len(body))[:3])
    f.raw(b"\x31\xff\xf0" + struct.pack("<hhHH", 100, 100, 0x1E0, 0x1B0))
    f.marks = [(len(f.b) + a, b) for a, b in marks]
    f.raw(body)
    f.raw(bytes(stride * height * (len(codes) + 1)))
    f.rows = rows
    f.graphics = (len(codes) + 1, stride * height)


def unstopped(codes, stops):
    return [codes[0]] + [c for c, s in zip(codes[1:], stops) if not s]


def mk_pec(rng):
    f = File("pec")
    if rng.random() < 0.2:  # the same data under the other name
        f.ext = "pes"
    f.raw(b"#PEC0001")
    codes, stops = slots(rng, 64)
    pec_section(f, rng, codes, stops)
    f.colors = [PEC[c] for c in unstopped(codes, stops)]
    f.picks = [("PEC", c) for c in unstopped(codes, stops)]
    return f


def pes_string(s):
    b = s.encode("utf8")
    return bytes([len(b)]) + b


PES = {  # version: (skip after metadata, has a hoop name before a second skip, skip before the counts)
    "0050": (24, None, 24), "0055": (24, None, 24), "0056": (24, None, 24), "0060": (36, None, 24), "0070": (36, None, 24),
    "0080": (38, None, 26), "0090": (14, 30, 34), "0100": (14, 38, 34)}


def mk_pes(rng):
    f = File("pes")
    v = rng.choice(["0001", "0020", "0022", "0030", "0040"] + sorted(PES) * 2)
    f.raw(b"#PES" + v.encode())
    at = len(f.b)
    f.raw(bytes(4))
    codes, stops = slots(rng, 64)
    mode = "palette"
    threads = []
    word = lambda: rng.choice(("", "".join(rng.choice("abcXYZ 019é字") for _ in range(rng.randint(1, 20)))))
    texts = {"version": {"0022": 2.2, "0055": 5.5, "0056": 5.6}.get(v) or int(v) // 10 or 1}
    if v == "0040" or v in PES:
        f.raw(junk(rng, 4))
        for k in ("name", "category", "author", "keywords", "comments"):
            w = word()
            f.raw(pes_string(w))
            if w:
                texts[k] = w
    if v in PES:
        a, hoop, b = PES[v]
        f.raw(junk(rng, a))
        if hoop is not None:
            w = word()
            f.raw(pes_string(w))
            if w:
                texts["hoop_name"] = w
            f.raw(junk(rng, hoop))
        w = word()
        f.raw(pes_string(w))
        if w:
            texts["image" if v in ("0050", "0055", "0056") else "image_file"] = w
        f.raw(junk(rng, b))
        complex_ = rng.random()
        if complex_ < 0.25:
            counts = [0, 0, 0]
            counts[rng.randrange(3)] = rng.randint(1, 5)
            f.raw(struct.pack("<HHH", *counts) + junk(rng, 40))
        else:
            mode = rng.choice(("one", "table", "none"))
            if mode == "one":
                # one thread per block, a stop repeats the thread of its block
                for c, s in zip(codes, [False] + stops):
                    threads.append(threads[-1] if s else pes_thread(rng, threads[-1] if threads else None))
            elif mode == "table":
                seen = []
                for c in codes:
                    if c not in seen:
                        seen.append(c)
                for _ in seen:
                    threads.append(pes_thread(rng, threads[-1] if threads else None))
                table = dict(zip(seen, threads))
                if len(threads) >= len(codes):
                    mode = "one"
            f.raw(struct.pack("<HHHH", 0, 0, 0, len(threads)))
            for t in threads:
                f.raw(pes_string(t["catalog_number"]) + struct.pack(">I", t["color"])[1:] + junk(rng, 5))
                f.raw(pes_string(t["description"]) + pes_string(t["brand"]) + pes_string(t["chart"]))
    f.raw(junk(rng, rng.choice((0, 7, 100))))
    f.b[at:at + 4] = struct.pack("<I", len(f.b))
    pec_section(f, rng, codes, stops)
    texts["Name"] = f.texts["Name"]
    f.texts = texts
    if mode == "one" and threads:
        used = threads
    elif mode == "table" and threads:
        used = [table[c] for c in codes]
    else:
        f.colors = [PEC[c] for c in unstopped(codes, stops)]
        f.picks = [("PEC", c) for c in unstopped(codes, stops)]
        return f
    keep = [used[0]] + [t for t, s in zip(used[1:], stops) if not s]
    f.colors = [t["color"] for t in keep]
    f.thread_texts = [{k: t[k] or None for k in ("catalog_number", "description", "brand", "chart")} for t in keep]
    return f


def pes_thread(rng, prev):
    while True:
        t = {"color": rng.randrange(1 << 24)}
        for k in ("catalog_number", "description", "brand", "chart"):
            t[k] = rng.choice(("", "".join(rng.choice("abcXYZ 019é") for _ in range(rng.randint(1, 12)))))
        if prev is None or t["color"] != prev["color"]:
            return t


def mk_phb(rng):
    f = File("phb")
    codes, stops = slots(rng, 64)
    b = bytearray(b"#PHB0003" + junk(rng, 0x200))
    head = 0x73 + len(codes)
    one = rng.randint(head, head + 40)  # position of the first chained block
    struct.pack_into("<I", b, 0x54, one - 0x52)
    struct.pack_into("<H", b, 0x71, len(codes))
    b[0x73:0x73 + len(codes)] = bytes(codes)
    n1 = rng.randint(4, 50)
    n2 = rng.randint(4, 50)
    struct.pack_into("<I", b, one, n1)
    two = one + n1 + 2
    struct.pack_into("<I", b, two, n2)
    three = two + n2
    c2 = len(codes) - 1 if rng.random() < 0.7 else rng.randint(0, 30)
    del b[three + 14:]
    b += bytes([c2]) + junk(rng, c2 + 0x15)
    body, rows, marks = pec_ops(rng, stops)
    f.marks = [(len(b) + a, r) for a, r in marks]
    b += body + junk(rng, rng.choice((0, 30)))
    f.b = b
    f.rows = rows
    f.colors = [PEC[c] for c in unstopped(codes, stops)]
    f.picks = [("PEC", c) for c in unstopped(codes, stops)]
    return f


def mk_phc(rng):
    f = File("phc")
    codes, stops = slots(rng, 64)
    stride, height = rng.choice(((6, 38), (1, 1), (7, 3)))
    b = bytearray(b"#PHC0003" + junk(rng, 0x47))
    assert len(b) == 0x4F
    b[0x4A] = height
    b[0x4C] = stride
    struct.pack_into("<H", b, 0x4D, len(codes))
    b += bytes(codes)
    b += junk(rng, stride * height * len(codes))
    add = rng.randint(0, 255)
    pos = len(b) + rng.randint(0, 30) + add
    off = pos - add
    b[0x2B] = add
    struct.pack_into("<H", b, 0x30, off)
    b += junk(rng, pos - len(b))
    n1 = rng.randint(0, 40)
    b += struct.pack("<H", n1) + junk(rng, n1)
    n2 = rng.randint(0, 300)
    b += struct.pack("<I", n2) + junk(rng, n2 + 10)
    c2 = rng.randint(0, 40)
    b += bytes([c2]) + junk(rng, c2 + 0x1D)
    body, rows, marks = pec_ops(rng, stops)
    f.marks = [(len(b) + a, r) for a, r in marks]
    b += body + junk(rng, rng.choice((0, 30)))
    f.b = b
    f.rows = rows
    f.colors = [PEC[c] for c in unstopped(codes, stops)]
    f.picks = [("PEC", c) for c in unstopped(codes, stops)]
    return f


# ------------------------------------------------------------------ Husqvarna and others
def mk_hus(rng):
    f = File("hus")
    cmd, xs, ys = bytearray(), bytearray(), bytearray()
    before = []  # rows before each element
    for k in ops(rng, ("stitch", "move", "change", "trim")):
        before.append(len(f.rows))
        dx, dy = dd(rng, 127, -128), dd(rng, 128, -127)
        if k in ("change", "trim") and rng.random() < 0.6:
            dx = dy = 0
        cmd.append({"stitch": 0x80, "move": 0x81, "change": 0x84, "trim": 0x88}[k])
        xs.append(dx & 0xFF)
        ys.append(-dy & 0xFF)
        if k == "trim":
            if dx or dy:
                f.go(dx, dy, JUMP)
            f.go(0, 0, TRIM)
        else:
            f.go(dx, dy, {"stitch": STITCH, "move": JUMP, "change": COLOR_CHANGE}[k])
    before.append(len(f.rows))
    if rng.random() < 0.9:
        cmd.append(0x90)
        xs.append(0)
        ys.append(0)
        before.append(len(f.rows))
    f.end()
    n = rng.randint(0, 10)
    f.colors = []
    packed = [hufc.pack(bytes(v), rng, end=rng.random() < 0.5) for v in (cmd, xs, ys)]
    parts = [v[0] for v in packed]
    head = struct.pack("<IIIhhhh", 0x00C8AF5B, len(cmd), n, 100, 100, -100, -100)
    base_ = len(head) + 12 + 8 + 2 + 2 * n
    a = base_
    b = a + len(parts[0])
    c = b + len(parts[1])
    f.raw(head + struct.pack("<III", a, b, c) + b"  abc \x00\x00" + b"\x00\x00")
    for _ in range(n):
        k = rng.randrange(len(HUS))
        f.colors.append(HUS[k])
        f.picks.append(("HUS", k))
        f.raw(struct.pack("<H", k))
    assert len(f.b) == base_
    for p in parts:
        f.raw(p)
    ends = packed[2][1]["ends"]

    def cut(k):
        """the least and most rows that may be read when only k bytes are left"""
        bits = 8 * (k - c)
        lo = max([e for b, e in ends if b < bits] or [0])
        hi = max([e for b, e in ends if b <= bits] or [0])
        return before[lo], before[hi]

    f.marks = [(a, 0), (c, 0), (len(f.b), len(f.rows) - 1)]
    f.cut = cut
    return f


def mk_shv(rng):
    f = File("shv")
    name = "".join(rng.choice("abcXYZ 019") for _ in range(rng.randint(1, 30)))
    f.texts["name"] = name
    w, h = rng.choice(((0, 0), (9, 7), (20, 21), (255, 255)))
    f.raw(b"Embroidery disk created using software licensed from Viking Sewing Machines AB, Sweden")
    assert len(f.b) == 0x56
    f.put(len(name))
    f.raw(name.encode())
    f.put(w, h)
    f.raw(bytes(4 + (h + 1) // 2 * w))
    nb = rng.choice((1, 1, 2, 3, 6))
    f.put(nb)
    f.raw(junk(rng, 18))
    blocks = []
    f.colors = []
    jumping = False
    marks = []
    for b in range(nb):
        body = bytearray()
        marks.append((b, 0, len(f.rows)))  # the change comes with the first record
        if b:
            f.go(0, 0, COLOR_CHANGE)
        for k in ["stitch"] + ops(rng, ("stitch", "long", "sew", "mark")):
            if body:
                marks.append((b, len(body), len(f.rows)))
            if k == "long":
                dx, dy = dd(rng, rng.choice((300, 32767))), dd(rng, rng.choice((300, 32767)))
                body += b"\x80\x01" + struct.pack(">hh", dx, dy)
                f.go(dx, dy, JUMP)
                jumping = True
            elif k == "sew":
                body += b"\x80\x02"
                jumping = False
            elif k == "mark":
                body += b"\x80\x03"
            else:
                dx, dy = dd(rng, 127, -127), dd(rng, 127, -128)
                body += bytes((dx & 0xFF, dy & 0xFF))
                f.go(dx, dy, JUMP if jumping else STITCH)
        blocks.append(bytes(body))
    for body in blocks:
        k = rng.randrange(len(SHV))
        f.colors.append(SHV[k])
        f.picks.append(("SHV", k))
        f.raw(struct.pack(">I", len(body) // 2) + bytes([k]) + junk(rng, 9))
    del f.b[-2:]
    starts = []
    for body in blocks:
        starts.append(len(f.b))
        f.raw(body)
    f.marks = [(starts[b] + o, r) for b, o, r in marks]
    f.end()
    return f


def vp3_16(s):
    b = s.encode("utf-16-be")
    return struct.pack(">H", len(b)) + b


def vp3_8(s):
    b = s.encode("utf8")
    return struct.pack(">H", len(b)) + b


def mk_vp3(rng):
    f = File("vp3")
    f.tol = 1e-6
    note = lambda: rng.choice(("", "x", "Setting: abc"))
    f.raw(b"%vsm%\x00" + vp3_16("Produced by     Software Ltd"))
    f.raw(b"\x00\x02\x00" + junk(rng, 4) + vp3_16(note()))
    f.raw(junk(rng, 16) + junk(rng, 4) + b"\x00" + b"\x01" + b"\x0c\x00\x01")
    f.raw(b"\x00\x03\x00" + junk(rng, 4))
    step = rng.choice((1, 50, 100))
    cx, cy = (rng.randint(-3000 * 100, 3000 * 100) // step * step for _ in range(2))
    if rng.random() < 0.3:
        cx = cy = 0
    f.raw(struct.pack(">ii", cx, -cy) + bytes(3) + junk(rng, 24) + vp3_16(note()))
    f.raw(b"\x64\x64" + bytes(16) + b"xxPP\x01\x00" + vp3_16("Produced by     Software Ltd"))
    nb = rng.choice((1, 1, 2, 3, 6))
    f.raw(struct.pack(">H", nb))
    f.colors = []
    f.thread_texts = []
    for b in range(nb):
        if rng.random() < 0.3 and b == 0:
            sx, sy = -cx, -cy
        else:
            sx, sy = (rng.randint(-3000 * 100, 3000 * 100) // step * step for _ in range(2))
        body = bytearray()
        x0, y0 = (sx + cx) / 100.0, (sy + cy) / 100.0
        if x0 != 0 or y0 != 0 or f.x != 0 or f.y != 0:
            f.at(x0, y0, JUMP)
        t = {"color": rng.randrange(1 << 24)}
        for k in ("catalog_number", "description", "brand"):
            t[k] = rng.choice(("", "".join(rng.choice("abcXYZ 019é字") for _ in range(rng.randint(1, 20)))))
        f.colors.append(t["color"])
        f.thread_texts.append({k: t[k] for k in ("catalog_number", "description", "brand")})
        marks = []
        for k in ops(rng, ("stitch", "long", "trim", "nop")):
            marks.append((len(body), len(f.rows)))
            if k == "trim":
                body += b"\x80\x03"
                f.go(0, 0, TRIM)
            elif k == "nop":
                body += b"\x80\x02"
            elif k == "long":
                dx, dy = dd(rng, rng.choice((100, 300, 32767))), dd(rng, rng.choice((100, 300, 32767)))
                body += b"\x80\x01" + struct.pack(">hh", dx, dy)
                f.go(dx, dy, STITCH)
                marks.append((len(body), len(f.rows)))
                body += b"\x80\x02"
            else:
                dx, dy = dd(rng, 127), dd(rng, 127, -128)
                body += bytes((dx & 0xFF, dy & 0xFF))
                f.go(dx, dy, STITCH)
        blk = struct.pack(">ii", sx, -sy) + b"\x01\x00" + struct.pack(">I", t["color"])[1:] + b"\x00\x00\x00\x05\x28"
        blk += vp3_8(t["catalog_number"]) + vp3_8(t["description"]) + vp3_8(t["brand"])
        blk += struct.pack(">ii", 0, 0) + b"\x00\x01\x00" + struct.pack(">I", 3 + len(body)) + b"\x0a\xf6\x00" + bytes(body) + b"\x00"
        marks.append((len(body), len(f.rows)))
        f.raw(b"\x00\x05\x00" + struct.pack(">I", len(blk)))
        f.marks.append((len(f.b) + 8, marks[0][1]))
        f.raw(blk)
        start = len(f.b) - len(body) - 1
        f.marks += [(start + o, r) for o, r in marks]
        if b + 1 < nb:
            f.go(0, 0, COLOR_CHANGE)
    f.end()
    return f


def mk_xxx(rng):
    f = File("xxx")
    n = rng.randint(0, 20)
    f.raw(junk(rng, 0x27) + struct.pack("<H", n))
    f.raw(junk(rng, 0x100 - len(f.b)))
    for k in ops(rng, ("stitch", "move", "trim", "change", "long")):
        f.mark()
        dx, dy = dd(rng, 124), dd(rng, 124)
        if k == "stitch":
            f.put(dx, -dy)
            f.go(dx, dy, STITCH)
        elif k == "move":
            dx, dy = dd(rng, 127, -128), dd(rng, 127, -127)
            f.put(0x7F, 0x01, dx, -dy)
            f.go(dx, dy, JUMP)
        elif k == "trim":
            if rng.random() < 0.4:
                dx = dy = 0
            elif rng.random() < 0.3:
                dx, dy = rng.choice(((dx, 0), (0, dy)))
            f.put(0x7F, 0x03, dx, -dy)
            f.go(0, 0, TRIM)
            if dx or dy:
                f.go(dx, dy, JUMP)
        elif k == "change":
            f.put(0x7F, rng.choice([0x08] * 6 + list(range(0x0A, 0x18))), 0, 0)
            f.go(0, 0, COLOR_CHANGE)
        else:
            dx, dy = dd(rng, 32767), dd(rng, 32767)
            f.put(rng.choice((0x7D, 0x7E)))
            f.raw(struct.pack("<hh", dx, -dy))
            f.go(dx, dy, JUMP)
    f.mark()
    f.put(0x7F, rng.choice((0x7F, 0x18)), 0x02, 0x14)
    f.end()
    f.raw(junk(rng, 2))
    f.colors = []
    for _ in range(n):
        c = rng.randrange(1 << 24)
        f.colors.append(c)
        f.raw(struct.pack(">I", c))
    f.raw(rng.choice((b"", bytes(8))))
    return f


def mk_tbf(rng):
    f = File("tbf")
    f.raw(junk(rng, 0x83))
    name = "".join(rng.choice("abcXYZ019") for _ in range(rng.randint(1, 16)))
    f.texts["name"] = name
    f.raw(("%-16s" % name).encode())
    f.raw(junk(rng, 0x10A - len(f.b)))
    order = [rng.choice((0, rng.randint(1, 15), rng.randint(1, 254))) for _ in range(256)]
    f.raw(bytes(order))
    f.raw(junk(rng, 4))
    f.colors = []
    for _ in range(rng.randint(0, 15)):
        c = rng.randrange(1 << 24)
        f.colors.append(c)
        f.raw(b"\x45" + struct.pack(">I", c)[1:] + b" ")
    f.raw(b"\x00")
    f.raw(junk(rng, 0x600 - len(f.b)))
    k_ = 0
    for k in ops(rng, ("stitch", "move", "trim", "trim86", "needle", "stop")):
        f.mark()
        dx, dy = dd(rng, 127, -128), dd(rng, 127, -127)
        if k == "stitch":
            f.put(dx, -dy, 0x80)
            f.go(dx, dy, STITCH)
        elif k == "move":
            if dx == 0 and dy == 0:
                dx = 1
            f.put(dx, -dy, 0x90)
            f.go(dx, dy, JUMP)
        elif k == "trim":
            f.put(0, 0, 0x90)
            f.go(0, 0, TRIM)
        elif k == "trim86":
            f.put(rng.randrange(256), rng.randrange(256), 0x86)
            f.go(0, 0, TRIM)
        elif k == "stop":
            f.put(rng.randrange(256), rng.randrange(256), 0x40)
            f.go(0, 0, STOP)
        else:
            f.put(0, 0, 0x81)
            v = order[k_]
            k_ += 1
            if v:
                f.go(0, 0, NEEDLE_SET, v)
            else:
                f.go(0, 0, STOP)
    f.mark()
    if rng.random() < 0.8:
        f.put(0, 0, 0x8F)
        f.raw(junk(rng, rng.choice((0, 3, 20))))
    f.end()
    return f


def mk_gcode(rng):
    f = File("gcode")
    f.tol = 1e-6
    f.colors = []
    nl = rng.choice(("\n", "\r\n", "\r"))
    out = []
    scale, absolute = 10.0, True
    up = rng.random() < 0.5
    gap = rng.choice(("", " ", "  ", "\t"))

    def line(*words, comment=None):
        s = gap.join(words)
        s = s.upper() if up else s.lower()
        if comment is not None:
            s += rng.choice(("(%s)" % comment, " (%s)" % comment))
        out.append(s)

    def num(v):
        s = "%.4f" % v
        r = rng.random()
        if r < 0.3 and "." in s:
            s = s.rstrip("0").rstrip(".") or "0"
        if r > 0.9 and not s.startswith("-"):
            s = "+" + s
        return s

    for _ in range(rng.randint(0, 5)):
        c = rng.randrange(1 << 24)
        f.colors.append(c)
        out.append("(Thread #%06x some words)" % c)
    at = []
    for k in ops(rng, ("stitch", "change", "unit", "mode", "comment", "other")):
        at.append((len(out), len(f.rows)))
        if k == "stitch":
            x, y = (round(dd(rng, 999) / 10.0, rng.choice((0, 1, 3))) for _ in range(2))
            w = ["x" + num(x), "y" + num(y)]
            if rng.random() < 0.2:
                w.reverse()
            if rng.random() < 0.2:
                w.append("f" + num(500))
            if rng.random() < 0.2:
                w.append("z" + num(5))
            line(rng.choice(("g0", "g00", "g1", "g01")), *w, comment=rng.choice((None, None, "Thread", "x9 y9")))
            if absolute:
                f.at(-x * scale, -y * scale, STITCH)
            else:
                f.go(-x * scale, -y * scale, STITCH)
        elif k == "change":
            line(rng.choice(("m0", "m00", "m1", "m01")))
            f.go(0, 0, COLOR_CHANGE)
        elif k == "unit":
            scale = rng.choice((10.0, 254.0))
            line(rng.choice(("g21", "g71")) if scale == 10.0 else rng.choice(("g20", "g70")))
        elif k == "mode":
            absolute = rng.random() < 0.6
            line("g90" if absolute else "g91")
        elif k == "comment":
            out.append(rng.choice(("; g0 x1 y2", "(g0 x1 y2)", "(STITCH_COUNT: 12)", "", "   ")))
        else:
            line(rng.choice(("m3 s100", "m5", "g4 p1", "f100", "g28", "t1 m6")))
    at.append((len(out), len(f.rows)))
    line(rng.choice(("m30", "m2", "m02")))
    f.end()
    # a line counts from its first line end byte
    f.marks = [(len(nl.join(out[:n])) + 1 if n else 0, r) for n, r in at]
    f.raw((nl.join(out) + nl).encode())
    return f


def mk_pmv(rng):
    f = File("pmv")
    f.tol = 1e-6
    f.raw(junk(rng, 0x64))
    px = 0
    for _ in range(rng.choice((1, 1, 2, 4))):
        n = rng.choice((0, 1, 5, 30, 100))
        f.raw(struct.pack("<HH", n, min(255, 2 * n)))
        for _ in range(n):
            x = rng.randint(-31, 31)
            y = rng.randint(-15, 15)
            f.mark()
            f.put(x & 0x3F, y & 0x1F)
            px += x * 2.5
            f.at(px, -y * 2.5, STITCH)
        f.mark()
    f.mark()
    f.raw(struct.pack("<HH", 0, 256) + junk(rng, 30))
    f.end()
    return f


BUILDERS = {k[3:]: v for k, v in sorted(globals().items()) if k.startswith("mk_")}


def make(name, rng):
    f = BUILDERS[name](rng)
    f.format = name
    f.data = bytes(f.b)
    return f
