from lib import enc, gen
from lib.cmds import *

ID = "P16"
LEVEL = "exploration"
RULE = (
    "soups rich in trims, stitch/sequence/colour breaks, frame ejects, stops and end commands; oracle: the sequence of emitted "
    "commands recomputed from the documentation; non-trivial = at least 2 break commands with sewing between; distinct by emitted kinds"
)
ASSUMPTIONS = ["zero length moves as documented"]
MIN_EVENTS = {"breaks": 10000, "compared": 100000}
SEQ = {SEQUIN_EJECT, SEQUIN_MODE}
TIES = {TIE_ON, TIE_OFF, TIE_ON_SMALL, TIE_OFF_SMALL}
EXTRA = [TRIM] * 4 + [STITCH_BREAK] * 3 + [SEQUENCE_BREAK] * 3 + [FRAME_EJECT] * 3 + [COLOR_BREAK] * 3 + [STOP] * 2 + [
    OPTION_EXPLICIT_TRIM, OPTION_IMPLICIT_TRIM]


def cases(tier):
    return 50000 if tier == "quick" else 400000


def case(i, rng, mon):
    drop = SEQ | TIES
    s = enc.settings(rng, tie_on=None, tie_off=None)
    r = rng.random()
    if r < 0.25:
        drop = TIES  # sequins start and end blocks as stitches do
    elif r < 0.4:
        drop = set()
        s = enc.settings(rng)
    n = rng.choice((3, 6, 12, 30, 70))
    if rng.random() < 0.3:
        src, _ = gen.design(rng, speeds=True, huge=0.002)
    else:
        src = gen.soup(rng, n, span=rng.choice((20, 150)), mode=rng.choice(("int", "half")), drop=drop, extra=EXTRA,
                       flags=rng.random() < 0.3)
    r = enc.Run(src, gen.threads(rng, 60), s)
    brk = [base(x[2]) for x in r.src if base(x[2]) in (TRIM, STITCH_BREAK, SEQUENCE_BREAK, FRAME_EJECT, COLOR_BREAK, STOP, COLOR_CHANGE)]
    mon.count("breaks", len(brk))
    if len(brk) >= 2:
        mon.sig([c for _, _, c in r.real])
        mon.sample({"settings": s, "source": show(r.src, 14), "emitted": show(r.real, 20)})
    enc.compare(mon, r, "misplaced-event", "trims, stops, changes and jumps follow the requested breaks")
    # independent of the reference: never two trims without sewing between, no trim before anything was sewn
    sewn = False
    trimmed_at = None
    for k, (x, y, c) in enumerate(r.real):
        if c == STITCH:
            sewn = True
        elif c == TRIM:
            if not sewn:
                mon.fail("needless-trim", "a trim is emitted while the thread is already cut", r.detail(k))
            sewn = False
