"""Workload generators: realistic designs, hostile command soups, threads, text."""
from .cmds import *

EDGE = [0, 1, 2, 3, 4, 13, 14, 39, 40, 41, 62, 63, 64, 65, 80, 81, 100, 119, 120, 121, 122, 123, 124, 125, 126, 127,
        128, 129, 200, 242, 243, 248, 253, 254, 255, 256, 363, 510, 1000, 2046, 2047, 2048, 2049, 3199, 3200, 3201, 4094,
        4095, 6400]


def delta(rng, span):
    r = rng.random()
    if r < 0.12:
        return 0
    if r < 0.55:
        return rng.randint(-span, span)
    if r < 0.8:
        return rng.choice((-1, 1)) * rng.choice([e for e in EDGE if e <= span * 4] or [0])
    if r < 0.93:
        return rng.randint(-9, 9)
    return rng.randint(-span * 6, span * 6)


def frac(rng, mode):
    if mode == "int":
        return 0
    if mode == "half":
        return rng.choice((0, 0.5))
    return rng.choice((0, 0.5, 0.25, 0.499999, 0.50001, rng.random()))


class Walk:
    """keeps absolute coordinates inside a box so that every format can represent the whole design"""

    def __init__(self, rng, span=60, mode="int", box=9000):
        self.rng, self.span, self.mode, self.box = rng, span, mode, box
        self.x = self.y = 0

    def step(self, scale=1.0):
        rng = self.rng
        for _ in range(20):
            dx = int(delta(rng, max(1, int(self.span * scale)))) + frac(rng, self.mode)
            dy = int(delta(rng, max(1, int(self.span * scale)))) + frac(rng, self.mode)
            if rng.random() < 0.12:
                dx = 0
            if rng.random() < 0.12:
                dy = 0
            if abs(self.x + dx) <= self.box and abs(self.y + dy) <= self.box:
                break
        else:
            dx, dy = -self.x / 2, -self.y / 2
            if self.mode == "int":
                dx, dy = int(dx), int(dy)
        self.x += dx
        self.y += dy
        return self.x, self.y


def colors(rng, n, distinct_adjacent=None):
    if distinct_adjacent is None:  # two blocks in a row may have the same colour
        distinct_adjacent = rng.random() < 0.6
    out = []
    for _ in range(n):
        while True:
            r = rng.random()
            if r < 0.25:
                c = rng.choice((0x000000, 0xFFFFFF, 0xFF0000, 0x00FF00, 0x0000FF, 0xFFFF00, 0x010101, 0xFEFEFE))
            elif r < 0.4 and out:
                c = rng.choice(out)
            else:
                c = rng.randrange(0x1000000)
            if not distinct_adjacent or not out or out[-1] != c:
                break
        out.append(c)
    return out


TEXT_POOLS = {
    "ascii": "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.#",
    "wide": "äöüßéèñçøåŁžшЖ中文字日本語€ñ✓",
    "print": "abcXYZ019 .,;:!?()[]{}<>|/\\'\"&%$@*+=~^`#-_",
}


def text(rng, pool="ascii", lo=1, hi=12, inner_space=True):
    a = TEXT_POOLS[pool] if pool != "mix" else TEXT_POOLS["ascii"] + TEXT_POOLS["wide"]
    n = rng.randint(lo, hi)
    s = "".join(rng.choice(a) for _ in range(n))
    if inner_space and n > 3 and rng.random() < 0.3:
        k = rng.randint(1, n - 2)
        s = s[:k] + " " + s[k + 1 :]
    return s


def threads(rng, n, meta=False, pool="ascii", distinct_adjacent=None, lo=1, hi=12):
    out = []
    for c in colors(rng, n, distinct_adjacent):
        d = {"color": c}
        if meta:
            for k in ("description", "catalog_number", "details", "brand", "chart", "weight"):
                if rng.random() < 0.7:
                    d[k] = text(rng, pool, lo, hi)
        out.append(d)
    return out


def make_threads(specs):
    from pyembroidery import EmbThread

    out = []
    for d in specs:
        t = EmbThread()
        t.color = d["color"]
        for k in ("description", "catalog_number", "details", "brand", "chart", "weight"):
            if k in d:
                setattr(t, k, d[k])
        out.append(t)
    return out


def design(rng, blocks=None, per=None, span=60, mode="int", box=9000, trims=True, stops=True, jumps=True, breaks=True,
           sequins=False, speeds=False, long=True, change="mixed", end="maybe", lead=True, needles=False, needle_max=9, zero=True, sew=(STITCH,), huge=0):
    """A realistic design as absolute [x, y, command] triples; every colour block sews at least one stitch.

    Returns (stitches, number of colour blocks)."""
    w = Walk(rng, span, mode, box)
    st = []
    nb = blocks if blocks is not None else rng.choice((1, 1, 2, 2, 3, 4, 6, 9))
    if blocks is None and rng.random() < 0.03:
        nb, per = rng.choice((12, 18, 30, 45)), per or rng.choice((1, 2, 3))
    if huge and rng.random() < huge:  # counts that take more than a byte
        nb, per = rng.choice(((1, rng.randint(300, 4000)), (2, rng.randint(300, 2000)), (rng.choice((rng.randint(100, 200), 120 if needles else rng.randint(245, 254))), 1)))
    if lead and rng.random() < 0.5:
        if rng.random() < 0.5:
            x, y = w.step(rng.choice((1, 4, 10)))
            st.append([x, y, JUMP])
        else:
            w.x, w.y = w.step(rng.choice((1, 4, 10)))
    for b in range(nb):
        if b:
            kind = change if change != "mixed" else rng.choice(("break", "change"))
            cmd = COLOR_BREAK if kind == "break" else (NEEDLE_SET if kind == "needle" else COLOR_CHANGE)
            if needles and rng.random() < 0.6:
                cmd = pack(cmd, None, rng.randint(1, needle_max))
            st.append([w.x, w.y, cmd])
        n = per if per is not None else rng.choice((1, 2, 3, 5, 9, 20))
        sewn = 0
        # an optional lead-in before the first stitch of the block
        if jumps and rng.random() < 0.4:
            for _ in range(rng.choice((1, 1, 2, 3, 5))):
                x, y = w.step(3)
                st.append([x, y, JUMP])
        while sewn < n:
            r = rng.random()
            if sewn and sewn < n:
                if trims and r < 0.06:
                    st.append([w.x, w.y, TRIM])
                    if rng.random() < 0.6:
                        x, y = w.step(3)
                        st.append([x, y, JUMP])
                    continue
                if stops and r < 0.09:
                    st.append([w.x, w.y, STOP])
                    continue
                if jumps and r < 0.14:
                    for _ in range(rng.choice((1, 1, 2, 3, 4))):
                        x, y = w.step(2)
                        st.append([x, y, JUMP])
                    continue
                if breaks and r < 0.17:
                    st.append([w.x, w.y, SEQUENCE_BREAK])
                    continue
                if breaks and r < 0.18:
                    x, y = w.step(4)
                    st.append([x, y, FRAME_EJECT])
                    continue
                if sequins and r < 0.28:
                    if rng.random() < 0.2:
                        st.append([w.x, w.y, SEQUIN_MODE])
                    for _ in range(rng.choice((1, 2, 4))):
                        x, y = w.step(0.5)
                        st.append([x, y, SEQUIN_EJECT])
                    continue
                if speeds and r < 0.33:
                    st.append([w.x, w.y, rng.choice((SLOW, FAST))])
                    continue
                if breaks and r > 0.985:
                    st.append([w.x, w.y, STITCH_BREAK])
                    for _ in range(rng.choice((0, 1, 3))):
                        x, y = w.step(2)
                        st.append([x, y, JUMP])
                    # falls through to a stitch
            x, y = w.step(rng.choice((1, 1, 1, 1, 5)) if long else 1)
            st.append([x, y, STITCH if len(sew) == 1 else rng.choice(sew)])
            if zero and rng.random() < 0.03:
                st.append([x, y, STITCH])
            sewn += 1
    if end is True or end == "maybe" and rng.random() < 0.7:
        st.append([w.x, w.y, END])
    return st, nb


SOUP = [STITCH] * 10 + [JUMP] * 4 + [TRIM, STOP, COLOR_CHANGE, COLOR_BREAK, SEQUENCE_BREAK, FRAME_EJECT, STITCH_BREAK,
        SEW_TO, NEEDLE_AT, NEEDLE_SET, SLOW, FAST, TIE_ON, TIE_OFF, TIE_ON_SMALL, TIE_ON_NONE, TIE_OFF_SMALL, TIE_OFF_NONE,
        LONG_NONE, LONG_JUMP_NEEDLE, LONG_SEW_TO, OPTION_EXPLICIT_TRIM, OPTION_IMPLICIT_TRIM, NO_COMMAND, SEQUIN_EJECT,
        SEQUIN_EJECT, SEQUIN_MODE, SEQUIN_UTILIZE, SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE]


def soup(rng, n, span=60, mode="int", box=9000, extra=(), drop=(), flags=False, changeseq=0.0, nthreads=4):
    """A hostile command sequence: any documented command in any order."""
    pool = [c for c in SOUP + list(extra) if c not in drop]
    w = Walk(rng, span, mode, box)
    st = []
    if changeseq and rng.random() < changeseq:
        for _ in range(rng.randint(1, 4)):
            st.append([0, 0, pack(SET_CHANGE_SEQUENCE, rng.choice((None, rng.randrange(nthreads))),
                                  rng.choice((None, rng.randint(1, 8))), rng.choice((None, None, rng.randrange(5))))])
    while len(st) < n:
        c = rng.choice(pool)
        if c in (STITCH, SEW_TO, NEEDLE_AT, JUMP, FRAME_EJECT, SEQUIN_EJECT):
            x, y = w.step(rng.choice((1, 1, 5)))
            k = c
            if flags and rng.random() < 0.2 and c in (STITCH, JUMP):
                k = c | 0x100
            st.append([x, y, k])
            if rng.random() < 0.5:
                for _ in range(rng.randint(1, 4)):
                    x, y = w.step()
                    st.append([x, y, c])
        elif c in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
            t = rng.randrange(nthreads) if rng.random() < 0.15 else None
            nd = rng.randint(1, 9) if rng.random() < 0.25 else None
            st.append([w.x, w.y, pack(c, t, nd)])
        else:
            st.append([w.x, w.y, c])
    if rng.random() < 0.6:
        st.append([w.x, w.y, END])
        if rng.random() < 0.1:
            st.append([0, 0, STITCH])
    return st


def make_pattern(stitches, threadspecs=(), extras=None):
    from pyembroidery import EmbPattern

    p = EmbPattern()
    p.stitches = [list(s) for s in stitches]
    if p.stitches:
        p._previousX, p._previousY = p.stitches[-1][0], p.stitches[-1][1]
    for t in make_threads(threadspecs):
        p.add_thread(t)
    for k, v in (extras or {}).items():
        p.metadata(k, v)
    return p


def longest(rng, span):
    """More stitches than 16 bits count."""
    rows, x, y = [], 0, 0
    span = min(span, 90)
    for _ in range(rng.randint(66000, 72000)):
        dx, dy = rng.randint(-span, span), rng.randint(-span, span)
        x += dx if abs(x + dx) < 9000 else -dx
        y += dy if abs(y + dy) < 9000 else -dy
        rows.append([x, y, STITCH])
    return rows + [[x, y, END]]


def far(rng, m):
    """Islands far from each other, further than 16 bits reach."""
    rows = []
    for _ in range(12):
        x, y = rng.randint(-m, m), rng.randint(-m, m)
        rows += [[x, y, JUMP]] if rng.random() < 0.7 else []
        rows += [[x, y, STITCH], [x + rng.randint(1, 20), y + rng.randint(1, 20), STITCH], [x + 3, y + 3, STITCH]]
        if rng.random() < 0.8:
            rows.append(rows[-1][:2] + [rng.choice((TRIM, COLOR_CHANGE))])
    return rows + [[x + 3, y + 3, END]]
