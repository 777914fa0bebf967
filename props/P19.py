import math

from lib import enc, gen
from lib.cmds import *

ID = "P19"
LEVEL = "exploration"
RULE = (
    "designs and soups with tie settings, contingency switches and explicit tie commands, neighbours carrying command flags, short "
    "and long neighbours; oracle: emitted stream recomputed from the documentation, plus: a lock returns to where it started, stays on "
    "the segment to its neighbour and within the stitch limit; non-trivial = at least one lock; distinct by emitted kinds and settings"
)
ASSUMPTIONS = ["a lock towards a neighbour at the same place sews four zero length stitches (kept as is)"]
MIN_EVENTS = {"locks": 3000, "transformed": 2000, "compared": 100000}


def cases(tier):
    return 45000 if tier == "quick" else 400000


def case(i, rng, mon):
    s = enc.settings(rng, tie_on=rng.choice((True, True, TIE_ON_SMALL, False, TIE_ON_NONE, None)),
                     tie_off=rng.choice((True, True, TIE_OFF_SMALL, False, TIE_OFF_NONE, None)),
                     sequin_contingency=rng.choice((None, SEQUIN_UTILIZE, SEQUIN_REMOVE)))
    if rng.random() < 0.4:
        src, _ = gen.design(rng, sequins=rng.random() < 0.2, mode=rng.choice(("int", "half")), span=rng.choice((8, 60, 300)))
    else:
        src = gen.soup(rng, rng.choice((3, 8, 25, 60)), span=rng.choice((8, 60, 300)), mode=rng.choice(("int", "half", "f")), flags=True,
                       extra=[TIE_ON] * 4 + [TIE_OFF] * 4 + [TIE_ON_SMALL, TIE_OFF_SMALL, TRIM, TRIM, COLOR_BREAK])
    if rng.random() < 0.3:  # the ties are laid in the transformed design
        for k, vs in (("translate", ((100, 50), (-7, 3))), ("scale", (2, 0.5, (-1, -1), (1, -1))), ("rotate", (90, 180, 30, -45))):
            if rng.random() < 0.5:
                s[k] = rng.choice(vs)
        for _ in range(rng.choice((0, 1, 2, 3))):
            c = rng.choice((MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_SCALE, MATRIX_ROTATE, MATRIX_RESET))
            a = (rng.randint(-200, 200), rng.randint(-200, 200)) if c == MATRIX_TRANSLATE else (rng.choice((90, -90, 180, 30, 12.5)), 0) if c in (MATRIX_ROTATE, MATRIX_ROTATE_ORIGIN) else (rng.choice((2, 0.5, -1, 1.5)), rng.choice((2, 0.5, -1, 0.75)))
            src.insert(rng.randrange(len(src) + 1), [a[0], a[1], c])
        s["round"] = s["full_jump"] = False
        for k in ("max_stitch", "max_jump"):  # whether a step just reaches a limit depends on the last bit
            s.pop(k, None)
        mon.count("transformed")
    r = enc.Run(src, gen.threads(rng, 60), s)
    nolock = dict(s)
    plain = [(x[0], x[1], NO_COMMAND if base(x[2]) in (TIE_ON, TIE_OFF, TIE_ON_SMALL, TIE_OFF_SMALL) and x[2] != -1 else x[2]) for x in r.src]
    nolock["tie_on"] = nolock["tie_off"] = False
    enc.compare(mon, r, "wrong-tie", "tie stitches stand where the ties are requested and nowhere else")
    base_out, _ = enc.refenc.encode(plain, len(r.specs), nolock)
    extra = len(r.real) - len(base_out)
    if not any(base(x[2]) == COLOR_BREAK for x in r.src):  # an explicit tie counts as further sewing for a colour break
        mon.check(extra % 4 == 0, "partial-lock", "%d stitches were added by ties, not a whole number of locks" % extra, lambda: r.detail())
    if extra > 0:
        mon.count("locks", extra // 4)
        mon.sig([c for _, _, c in r.real], s.get("tie_on"), s.get("tie_off"))
        mon.sample({"settings": s, "source": show(r.src, 14), "emitted": show(r.real, 20)})
