import math

from lib import enc, gen
from lib.cmds import *

ID = "P26"
LEVEL = "exploration"
RULE = (
    "random designs with extreme, negative, fractional and flagged rows; bounds recomputed, rows after translate, transform and centring "
    "compared with the requested map, threads and metadata unchanged; non-trivial = at least 2 distinct points"
)
ASSUMPTIONS = ["centring rounds the shift to whole units"]
MIN_EVENTS = {"rows": 20000, "operations": 5000}


def cases(tier):
    return 80000 if tier == "quick" else 500000


def case(i, rng, mon):
    from pyembroidery import EmbMatrix

    mode = rng.choice(("int", "half", "any"))
    src = gen.soup(rng, rng.choice((1, 2, 3, 10, 40)), span=rng.choice((3, 60, 900)), mode=mode, flags=rng.random() < 0.2)
    if rng.random() < 0.3:
        ox, oy = rng.choice((0, 5000, -5000, 31.5)), rng.choice((0, 7000, -12000))
        src = [[x + ox, y + oy, c] for x, y, c in src]
    if rng.random() < 0.1:
        src = [[rng.choice((-3, 7)), rng.choice((-3, 7)), c] for _, _, c in src]
    p = gen.make_pattern(src, gen.threads(rng, 3), {"name": "n"})
    tb = ([t for t in p.threadlist], dict(p.extras))
    rows = [tuple(r) for r in src]

    def bounds(rows):
        return min(r[0] for r in rows), min(r[1] for r in rows), max(r[0] for r in rows), max(r[1] for r in rows)

    for _ in range(rng.choice((1, 2, 5))):
        mon.count("rows", len(rows))
        mon.count("operations")
        b = bounds(rows)
        for f in ("bounds", "extents", "extends"):
            got = getattr(p, f)()
            mon.check(len(got) == 4 and all(enc.near(u, v, 1e-9) for u, v in zip(got, b)), "bounds", "%s are %r, the extremes are %r" % (f, got, b),
                      lambda: show(rows, 60))
        op = rng.choice(("translate", "centre", "transform", "transform"))
        if op == "translate":
            dx, dy = rng.choice((0, 1, -7, 1000, 0.5, -33.25)), rng.choice((0, -1, 9, -2000, 0.25))
            p.translate(dx, dy)
            want = [(x + dx, y + dy, c) for x, y, c in rows]
        elif op == "centre":
            p.move_center_to_origin()
            nb = bounds(p.stitches)
            cx, cy = (nb[0] + nb[2]) / 2.0, (nb[1] + nb[3]) / 2.0
            mon.check(abs(cx) <= 0.5 + 1e-9 and abs(cy) <= 0.5 + 1e-9, "centre", "the centre is at %r after centring" % ((cx, cy),), lambda: (b, nb))
            dx, dy = p.stitches[0][0] - rows[0][0], p.stitches[0][1] - rows[0][1]
            mon.check(abs(dx - round(dx)) < 1e-6 and abs(dy - round(dy)) < 1e-6, "centre", "centring shifts by %r" % ((dx, dy),))
            want = [(x + dx, y + dy, c) for x, y, c in rows]
        else:
            m = EmbMatrix()
            a, s, t, tx, ty = (rng.choice((0, 90, 33, -200)), rng.choice((1, 2, -1, 0.5)), rng.choice((1, 3, -0.5)), rng.choice((0, 50)), rng.choice((0, -9)))
            # a row is scaled, then rotated, then moved
            m.pre_scale(s, t)
            m.pre_rotate(a)
            m.pre_translate(tx, ty)
            p.transform(m)
            ca, sa = math.cos(math.radians(a)), math.sin(math.radians(a))
            want = [(s * x * ca - t * y * sa + tx, s * x * sa + t * y * ca + ty, c) for x, y, c in rows]
        got = [tuple(r) for r in p.stitches]
        ok = len(got) == len(want) and all(g[2] == w[2] and abs(g[0] - w[0]) < 1e-6 * (1 + abs(w[0])) + 1e-6 and abs(g[1] - w[1]) < 1e-6 * (1 + abs(w[1])) + 1e-6
                                           for g, w in zip(got, want))
        mon.check(ok, op, "rows after %s are not mapped as asked" % op, lambda: {"before": show(rows, 40), "after": show(got, 40), "expected": show(want, 40)})
        mon.check(([t for t in p.threadlist], dict(p.extras)) == tb, "other", "%s changed threads or metadata" % op)
        rows = got
    if len(set(rows)) > 1:
        mon.sig(src)
    mon.sample({"source": show(src, 10), "bounds": bounds(rows)})
