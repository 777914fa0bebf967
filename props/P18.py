from lib import enc, gen
from lib.cmds import *

ID = "P18"
LEVEL = "exploration"
RULE = (
    "designs and soups interleaved with translate/scale/rotate/reset commands (origin and needle pivots) and the translate, "
    "scale and rotate settings; oracle: positions computed with an independent affine algebra; non-trivial = at least one effective "
    "transform before a stitch; distinct by (transform list, positions)"
)
ASSUMPTIONS = ["non-degenerate matrices (scale factors not zero)", "coordinates compared with 1e-6 relative tolerance"]
MIN_EVENTS = {"with_limits": 5000, "matrix_commands": 5000, "compared": 100000}
POSITIONED = (STITCH, NEEDLE_AT, SEW_TO, JUMP, FRAME_EJECT, SEQUIN_EJECT)
OPS = [MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_RESET, MATRIX_SCALE, MATRIX_ROTATE]


def cases(tier):
    return 60000 if tier == "quick" else 300000


def eq(u, v):
    return u[2] == v[2] and abs(u[0] - v[0]) <= 1e-6 * max(1, abs(v[0]), abs(v[1])) and abs(u[1] - v[1]) <= 1e-6 * max(1, abs(v[0]), abs(v[1]))


def appended(rows, a, b):
    """the command the pattern's own call appends to a design that ends here"""
    from pyembroidery import EmbPattern

    p = EmbPattern()
    for x, y, c in rows:
        p.add_stitch_absolute(c, x, y)
    p.append_translation(a, b)
    return list(p.stitches[-1])


def case(i, rng, mon):
    full = rng.random() < 0.25  # with limits and all: positions at which no step count depends on the last digit
    if full:
        s = enc.settings(rng)
        s.setdefault("round", False)
        mon.count("with_limits")
    else:
        s = enc.settings(rng, round=False, full_jump=False)
        for k in ("max_stitch", "max_jump"):
            s.pop(k, None)
        s["round"] = rng.random() < 0.25
    if rng.random() < 0.3:
        s["translate"] = (rng.randint(-300, 300), rng.randint(-300, 300))
    if rng.random() < 0.3:
        s["scale"] = rng.choice((2, 0.5, (-1, -1), (1, -1), (0.5, 2), (3, 0.25)))
    if rng.random() < 0.3:
        s["rotate"] = rng.choice((90, 180, -90, 30, 45.5, 361, -10))
    if rng.random() < 0.4:
        src, _ = gen.design(rng, per=rng.choice((2, 5)), mode=rng.choice(("int", "f")))
    else:
        src = gen.soup(rng, rng.choice((4, 10, 30)), mode=rng.choice(("int", "f")))
    if full:
        src = [[x + rng.random(), y + rng.random(), c] if base(c) in POSITIONED else [x, y, c] for x, y, c in src]
    elif s["round"]:  # positions that no transform of this workload takes to the middle between two units
        src = [[int(x) + 0.137, int(y) + 0.137, c] if base(c) in POSITIONED else [x, y, c] for x, y, c in src]
    nops = 0
    for _ in range(rng.choice((0, 1, 1, 2, 4))):
        c = rng.choice(OPS)
        if c == MATRIX_TRANSLATE:
            a, b = rng.randint(-200, 200), rng.randint(-200, 200)
        elif c in (MATRIX_ROTATE, MATRIX_ROTATE_ORIGIN):
            a, b = rng.choice((90, -90, 180, 30, 45, 12.5, 360, -720)), rng.choice((0, 0, 5))
        elif c in (MATRIX_SCALE, MATRIX_SCALE_ORIGIN):
            a, b = rng.choice((2, 0.5, -1, 1, 1.5)), rng.choice((2, 0.5, -1, 1, 0.75))
        else:
            a, b = 0, 0
        k = rng.randrange(len(src) + 1)
        src.insert(k, [a, b, c])
        if c == MATRIX_TRANSLATE and rng.random() < 0.3:
            mon.count("appended")
            got = appended(src[:k], a, b)
            mon.check(got == src[k], "append", "append_translation(%r, %r) appends %r" % (a, b, got))
        nops += 1
        # a middle level command between must not disturb the pivot of a needle relative transform
    mon.count("matrix_commands", nops)
    r = enc.Run(src, gen.threads(rng, 60), s)
    if nops or "scale" in s or "rotate" in s or "translate" in s:
        mon.sig([(x[0], x[1], base(x[2])) for x in r.src if base(x[2]) in OPS], s.get("scale"), s.get("rotate"), s.get("translate"), len(r.real))
        mon.sample({"settings": s, "source": show(r.src, 14), "emitted": show(r.real, 14)})
    enc.compare(mon, r, "wrong-position", "positions follow the transforms in force", eq=eq)
