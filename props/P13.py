from lib import enc, gen
from lib.cmds import *

ID = "P13"
LEVEL = "exploration"
RULE = (
    "random designs and hostile command soups (no sequins, no ties) under random settings; the oracle needs only the source "
    "rows: the requested needle points up to END, in order; non-trivial = at least 3 needle points and one break, jump or split; "
    "distinct by (needle points, settings)"
)
ASSUMPTIONS = ["sequins and tie stitches are decided by P17 and P19", "no matrix commands (P18)"]
MIN_EVENTS = {"needle_points": 50000, "inserted": 200}

DROP = {SEQUIN_EJECT, SEQUIN_MODE, TIE_ON, TIE_OFF, TIE_ON_SMALL, TIE_OFF_SMALL}


def cases(tier):
    return 50000 if tier == "quick" else 400000


def case(i, rng, mon):
    mode = rng.choice(("int", "half", "f"))
    s = enc.settings(rng, tie_on=None, tie_off=None)
    span = rng.choice((30, 100, 400))
    if rng.random() < 0.4:
        src, nb = gen.design(rng, span=span, mode=mode, speeds=True, huge=0.002)
    else:
        src = gen.soup(rng, rng.choice((3, 8, 25, 80)), span=span, mode=mode, drop=DROP, flags=True, changeseq=0.2)
    r = enc.Run(src, gen.threads(rng, 40), s, how=rng.choice(("normalized", "transcode")))
    want = []
    splitting = s.get("long_stitch_contingency") == LONG_SEW_TO
    for x, y, c in r.src:
        b = base(c) if c != -1 else -1
        if b == END:
            break
        if b in SEWING:
            want.append((round(x), round(y)) if s.get("round") else (x, y))
        if b in (SEW_TO, LONG_SEW_TO):
            splitting = True
    got = [(x, y) for x, y, c in r.real if c == STITCH]
    mon.count("needle_points", len(want))
    if len(want) >= 3 and len(r.real) != len(want) + 1:
        mon.sig(want, sorted(s.items(), key=str))
        mon.sample({"settings": s, "source": show(r.src, 12), "emitted": show(r.real, 16)})
    enc.compare(mon, r, "split-kind", "long stitches are split by stitches where sewing is asked and by jumps otherwise", keep=(STITCH,))
    if not splitting:
        for k in range(max(len(got), len(want))):
            if k >= len(got) or k >= len(want) or not (enc.near(got[k][0], want[k][0]) and enc.near(got[k][1], want[k][1])):
                mon.fail(
                    "needle-points-changed",
                    "needle point %d is %r, requested %r (%d emitted, %d requested)"
                    % (k, got[k] if k < len(got) else None, want[k] if k < len(want) else None, len(got), len(want)),
                    r.detail(),
                )
        return
    k = 0
    prev = None
    for n, (x, y, c) in enumerate(r.real):
        if c == STITCH:
            if k < len(want) and enc.near(x, want[k][0]) and enc.near(y, want[k][1]):
                k += 1
            else:
                # an inserted penetration must lie on the way to the next requested point
                mon.count("inserted")
                ok = k < len(want) and prev is not None
                if ok:
                    ax, ay = prev
                    bx, by = want[k]
                    cross = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
                    length = max(abs(bx - ax), abs(by - ay), 1)
                    ok = (
                        abs(cross) <= 1e-6 * length * length
                        and min(ax, bx) - 1e-6 <= x <= max(ax, bx) + 1e-6
                        and min(ay, by) - 1e-6 <= y <= max(ay, by) + 1e-6
                    )
                if not ok:
                    mon.fail(
                        "stray-needle-point",
                        "a needle penetration at %r was emitted which is neither requested nor on the way to %r"
                        % ((x, y), want[k] if k < len(want) else None),
                        r.detail(n),
                    )
        prev = (x, y)
    if k != len(want):
        mon.fail("needle-points-lost", "only %d of %d requested needle points were emitted" % (k, len(want)), r.detail())
