import copy
import math
import os

from lib import enc, gen
from lib.cmds import *

ID = "P25"
LEVEL = "exploration"
RULE = (
    "chains of 1..4 merges of random patterns (empty, without threads, equal border colours, leading changes, with END, with themselves) by "
    "operator and method with transforms; oracles: a restated merge model on rows and threads, per stitch colour conservation through the "
    "encoder, geometric map of the merged points; non-trivial = both patterns sew; distinct by kinds of the result"
)
ASSUMPTIONS = ["each pattern has one thread per colour block (fillers are compared by number only)"]
MIN_EVENTS = {"merges": 3000, "coloured_stitches": 20000}


def cases(tier):
    return 60000 if tier == "quick" else 300000


def needed(rows):
    n, fresh = 0, True
    for r in rows:
        c = base(r[2])
        if c in SEWING:
            if fresh:
                n, fresh = n + 1, False
        elif c in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
            fresh = True
    return n


def merged(a_rows, a_thr, pos, b_rows, b_thr, cmds):
    """the documented merge: (rows, threads with None for fillers)"""
    rows, thr = [list(r) for r in a_rows], list(a_thr)
    if rows and base(rows[-1][2]) == END:
        rows.pop()
    rows += [list(c) for c in cmds]
    while len(thr) < needed(rows):
        thr.append(None)
    if b_thr:
        if not thr:
            thr += b_thr
        elif thr[-1] is not None and thr[-1] == b_thr[0]:
            thr += b_thr[1:]
        else:
            thr += b_thr
            rows.append([pos[0], pos[1], COLOR_CHANGE])
    lead = True
    for r in b_rows:
        r = list(r)
        if base(r[2]) in SEWING:
            lead = False
        if lead and base(r[2]) in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
            r[2] = NO_COMMAND
        rows.append(r)
    return rows, thr


def colours(p):
    """thread colour of every stitch after encoding"""
    q = p.get_normalized_pattern({})
    k, out = 0, []
    for x, y, c in q.stitches:
        c &= 0xFF
        if c == COLOR_CHANGE:
            k += 1
        elif c == STITCH:
            out.append((x, y, q.threadlist[k].color if k < len(q.threadlist) else None))
    return out


def some(rng):
    r = rng.random()
    if r < 0.08:
        src, nb = [], 0
    elif r < 0.12:
        src, nb = [[3, 4, JUMP]] + ([[3, 4, END]] if rng.random() < 0.5 else []), 0
    else:
        src, nb = gen.design(rng, blocks=rng.choice((1, 1, 2, 3)), per=rng.choice((1, 2, 5)), long=False, stops=rng.random() < 0.5,
                             change=rng.choice(("mixed", "change")), zero=False, sew=rng.choice(((STITCH,), (STITCH,), (STITCH, SEW_TO, NEEDLE_AT), (NEEDLE_AT, NEEDLE_AT), (SEW_TO, SEW_TO))))
        if rng.random() < 0.25:
            src.insert(0, [0, 0, rng.choice((COLOR_BREAK, COLOR_CHANGE, NEEDLE_SET))])
        if rng.random() < 0.3:  # a needle of its own, the threads stay in order
            for r in src:
                if r[2] in (COLOR_BREAK, COLOR_CHANGE, NEEDLE_SET) and rng.random() < 0.6:
                    r[2] = pack(r[2], None, rng.choice((1, 3, 9)), None)
    specs = gen.threads(rng, nb, meta=rng.random() < 0.3)
    for d in specs:
        if rng.random() < 0.5:
            d.clear()
            d["color"] = rng.choice((0xFF0000, 0x0000FF))
    if rng.random() < 0.08:
        specs = []
    return src, specs


def case(i, rng, mon):
    from pyembroidery import EmbPattern

    src, specs = some(rng)
    p = gen.make_pattern([], specs, {"name": "first", "author": "a"})
    for r in src:
        p.add_stitch_absolute(r[2], r[0], r[1])
    full = len(specs) == needed(src)
    lead_a = bool(src) and base(src[0][2]) in (COLOR_BREAK, COLOR_CHANGE, NEEDLE_SET)
    want = colours(p) if full else None
    extras = dict(p.extras)
    both = 0
    for step in range(rng.choice((1, 1, 2, 4))):
        self_merge = rng.random() < 0.08
        if self_merge:
            b, bsrc, bspecs = p, [list(r) for r in p.stitches], None
        else:
            bsrc, bspecs = some(rng)
            b = gen.make_pattern(bsrc, bspecs, {"name": "n%d" % step, "k%d" % step: step})
        how = rng.choice(("iadd", "add", "method", "transform", "copy", "file"))
        if how == "file":  # a file name stands for the pattern in that file
            from pyembroidery import read, write

            path = os.path.join(mon.scratch, "other." + rng.choice(("json", "dst", "exp", "u01")))
            if b.stitches:
                write(b, path)
            if os.path.exists(path):
                b = read(path)
                self_merge = False
                bsrc, bspecs = [list(r) for r in b.stitches], list(b.threadlist)
            else:
                how = "method"
        b_rows = [list(r) for r in b.stitches]
        b_thr = list(b.threadlist)
        a_rows, a_thr = [list(r) for r in p.stitches], list(p.threadlist)
        b_full = full if self_merge else len(bspecs) == needed(bsrc)
        b_col = colours(b) if b_full else None
        pos = (p._previousX, p._previousY)
        kw = {}
        cmds = []
        if how == "transform":
            if rng.random() < 0.6:
                kw["dx"] = rng.choice((None, 0, 100, -30.5))
                kw["dy"] = rng.choice((None, 50, -7))
            if rng.random() < 0.5:
                kw["sx"] = rng.choice((None, 2, 0.5, -1))
                kw["sy"] = rng.choice((None, 3, 1))
            if rng.random() < 0.5:
                kw["rotate"] = rng.choice((90, 45, 0, -120))
            kw = {k: v for k, v in kw.items() if v is not None}
            if "dx" in kw or "dy" in kw:
                cmds.append([kw.get("dx", 0), kw.get("dy", 0), MATRIX_TRANSLATE])
            if "sx" in kw or "sy" in kw:
                cmds.append([kw.get("sx", kw.get("sy")), kw.get("sy", kw.get("sx")), MATRIX_SCALE])
            if "rotate" in kw:
                cmds.append([kw["rotate"], 0, MATRIX_ROTATE])
        snap = ([list(r) for r in b.stitches], list(b.threadlist), dict(b.extras))
        bextras = dict(b.extras)
        if how == "iadd":
            q = p
            q += b
        elif how == "add":
            old = ([list(r) for r in p.stitches], list(p.threadlist), dict(p.extras))
            q = p + b
            mon.check(old == ([list(r) for r in p.stitches], list(p.threadlist), dict(p.extras)), "operand", "+ changed its left operand")
        elif how == "copy":
            q = copy.copy(p)
            q.add_pattern(b)
        else:
            q = p
            q.add_pattern(path if how == "file" else b, **kw)
        mon.count("merges")
        mon.note(how, kw, self_merge)
        rows, thr = merged(a_rows, a_thr, pos, b_rows, b_thr, cmds)
        info = lambda: {"how": how, "args": kw, "self": self_merge, "first": show(a_rows, 40), "second": show(b_rows, 40), "result": show(q.stitches, 90),
                        "expected": show(rows, 90), "threads": [a_thr, b_thr, q.threadlist, thr]}
        got = [list(r) for r in q.stitches]
        mon.check(got == rows, "rows", "the merged rows are not those of the two patterns", info)
        mon.check(len(q.threadlist) == len(thr) and all(u is None or t == u for t, u in zip(q.threadlist, thr)), "threads",
                  "the merged thread list is %r, expected %r" % (q.threadlist, thr), info)
        extras.update(bextras)
        mon.check(q.extras == extras, "metadata", "merged metadata %r, expected %r" % (q.extras, extras), info)
        if q is not b:
            now = ([list(r) for r in b.stitches], list(b.threadlist), dict(b.extras))
            if not (self_merge and q is p):
                mon.check(now == snap, "second-changed", "merging changed the pattern that was added", info)
        # geometry and colour, through the encoder
        if full and b_full and not (self_merge and kw):
            mon.count("coloured_stitches", len(want) + len(b_col))
            res = colours(q)
            mapped = b_col
            ok = True
            if cmds:
                ok = bool(a_rows) and base([r for r in a_rows if base(r[2]) != END or r[2] == -1][-1:][0][2] if [r for r in a_rows if base(r[2]) != END] else JUMP) == STITCH
                if not (len(cmds) == 1 and cmds[0][2] == MATRIX_TRANSLATE) and not ok:
                    mapped = None
                else:
                    nx, ny = want[-1][:2] if want else (0, 0)
                    dx, dy = kw.get("dx", 0), kw.get("dy", 0)
                    sx, sy = (cmds_scale(cmds) or (1, 1))
                    a = math.radians(kw.get("rotate", 0))
                    mapped = []
                    for x, y, c in b_col:
                        u, v = x - nx + dx, y - ny + dy
                        u, v = u * math.cos(a) - v * math.sin(a), u * math.sin(a) + v * math.cos(a)
                        mapped.append((nx + sx * u, ny + sy * v, c))
            if mapped is not None:
                exp = want + mapped
                same = len(exp) == len(res) and all(e[2] == r[2] and enc.near(e[0], r[0], 1e-6) and enc.near(e[1], r[1], 1e-6) for e, r in zip(exp, res))
                if not same:
                    k = next((j for j, (e, r) in enumerate(zip(exp, res)) if e[2] != r[2] or abs(e[0] - r[0]) + abs(e[1] - r[1]) > 1e-6), min(len(exp), len(res)))
                    mon.fail("merged-design", "stitch %d of the merged design is %r, expected %r" % (k, res[k : k + 1], exp[k : k + 1]), info())
                if want and mapped:
                    both += 1
            want = res
        else:
            full = False
        full = full and b_full and not cmds
        p = q
        if not full or cmds:
            break
    if both:
        mon.sig([base(r[2]) for r in p.stitches])
    mon.sample({"result": show(p.stitches, 14)})


def cmds_scale(cmds):
    for x, y, c in cmds:
        if c == MATRIX_SCALE:
            return x, y
    return None
