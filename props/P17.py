from lib import enc, gen
from lib.cmds import *

ID = "P17"
LEVEL = "exploration"
RULE = (
    "designs and soups with sequins, sequin mode commands and contingency switches; oracle: emitted stream recomputed from the "
    "documentation plus conservation of ejected sequins; non-trivial = at least 2 sequins; distinct by emitted kinds"
)
ASSUMPTIONS = ["no tie stitches in the workload (P19)"]
MIN_EVENTS = {"sequins": 10000, "ejected": 1000}
DROP = {TIE_ON, TIE_OFF, TIE_ON_SMALL, TIE_OFF_SMALL}


def cases(tier):
    return 45000 if tier == "quick" else 400000


def case(i, rng, mon):
    s = enc.settings(rng, tie_on=None, tie_off=None,
                     sequin_contingency=rng.choice((SEQUIN_UTILIZE, SEQUIN_UTILIZE, SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE, None)))
    s.pop("round", None)
    if "sequin_contingency" not in s and rng.random() < 0.5:
        s["strip_sequins"] = False  # the deprecated spelling of UTILIZE
    cswitch = rng.random() < 0.4
    if rng.random() < 0.4:
        src, _ = gen.design(rng, sequins=True, speeds=True, span=rng.choice((20, 60, 200)))
    else:
        drop = set(DROP) | (set() if cswitch else {SEQUIN_UTILIZE, SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE})
        src = gen.soup(rng, rng.choice((4, 10, 30, 70)), span=rng.choice((20, 60, 300)), mode=rng.choice(("int", "half")), drop=drop,
                       extra=[SEQUIN_EJECT] * 8 + [SEQUIN_MODE] * 2)
    sq = dict(s)
    if sq.pop("strip_sequins", None) is False:
        sq["sequin_contingency"] = SEQUIN_UTILIZE
    specs = gen.threads(rng, 60)
    r = enc.Run(src, specs, s)
    r.ref, r.used = enc.refenc.encode(r.src, len(specs), sq)
    want = [x for x in r.src if base(x[2]) == SEQUIN_EJECT]
    mon.count("sequins", len(want))
    if len(want) >= 2:
        mon.sig([c for _, _, c in r.real])
        mon.sample({"settings": s, "source": show(r.src, 14), "emitted": show(r.real, 20)})
    enc.compare(mon, r, "sequin-handling", "sequins are emitted as their contingency requires")
    # conservation, straight from the source rows
    switches = any(base(x[2]) in (SEQUIN_UTILIZE, SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE) for x in r.src)
    ej = [(x, y) for x, y, c in r.real if c == SEQUIN_EJECT]
    mon.count("ejected", len(ej))
    if sq.get("sequin_contingency") == SEQUIN_UTILIZE and not switches:
        live = []
        for x in r.src:
            if base(x[2]) == END and x[2] != -1:
                break
            if base(x[2]) == SEQUIN_EJECT:
                live.append((x[0], x[1]))
        if len(ej) != len(live) or any(not (enc.near(a[0], b[0]) and enc.near(a[1], b[1])) for a, b in zip(ej, live)):
            mon.fail("sequins-lost", "%d sequins requested, %d ejected" % (len(live), len(ej)), r.detail())
    elif not switches and ej:
        mon.fail("sequin-not-allowed", "%d sequins ejected although they must become something else" % len(ej), r.detail())
