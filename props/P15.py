from lib import enc, gen
from lib.cmds import *

ID = "P15"
LEVEL = "exploration"
RULE = (
    "soups and designs with colour changes, colour breaks, needle sets, explicit thread/needle parameters and planned change "
    "sequences; oracle: thread plan recomputed from the documentation, then thread and needle of every change event and the colour "
    "every stitch is sewn in; non-trivial = at least 2 changes; distinct by (plan, changes)"
)
ASSUMPTIONS = ["the design provides enough threads, except where a missing thread may be any filler"]
MIN_EVENTS = {"changes": 5000, "sewn_colour_checks": 50000}


def cases(tier):
    return 60000 if tier == "quick" else 300000


def case(i, rng, mon):
    nth = rng.choice((3, 8, 60, 60))
    s = enc.settings(rng, sequin_contingency=rng.choice((None, SEQUIN_UTILIZE, SEQUIN_REMOVE)), tie_on=None, tie_off=None,
                     thread_change_command=rng.choice((None, COLOR_CHANGE, NEEDLE_SET, STOP)))
    if rng.random() < 0.4:
        src, nb = gen.design(rng, huge=0.002, per=rng.choice((1, 2, 4)), change=rng.choice(("mixed", "break", "change", "needle")),
                             needles=rng.random() < 0.5, blocks=rng.choice((2, 3, 5, 9, 14)))
    else:
        src = gen.soup(rng, rng.choice((8, 25, 60)), extra=[COLOR_CHANGE] * 4 + [COLOR_BREAK] * 4 + [NEEDLE_SET] * 2,
                       changeseq=0.5, nthreads=min(nth, 9))
        if rng.random() < 0.3:  # extreme parameters
            src.insert(rng.randrange(len(src) + 1), [0, 0, pack(COLOR_CHANGE, rng.choice((0, 1, 63, 127, 200, 254)),
                                                                rng.choice((0, 1, 64, 127, 200, 254)))])
            src[0:0] = [[0, 0, pack(SET_CHANGE_SEQUENCE, rng.choice((0, 1, 2)), rng.choice((1, 128, 254)), rng.choice((0, 1, 3, 6)))]]
    specs = gen.threads(rng, nth)
    r = enc.Run(src, specs, s)
    tcc = s.get("thread_change_command", COLOR_CHANGE)
    if tcc == NEEDLE_SET and s.get("needle_count", 5) <= 1:
        tcc = STOP
    ref = [o for o in r.ref]
    if len(ref) != len(r.real):
        mon.fail("event-count", "%d events emitted, expected %d" % (len(r.real), len(ref)), r.detail(enc.first_diff(r.real, [o[:3] for o in ref])))
    colour = None
    n_change = 0
    block = 0
    for n, (o, raw) in enumerate(zip(ref, r.raw)):
        b = base(raw)
        if b != o[2]:
            mon.fail("event-kind", "event %d is %s, expected %s" % (n, name(b), name(o[2])), r.detail(n))
        if o[3] is not None:
            t, nd, _ = split(raw)
            mon.count("changes")
            n_change += 1
            if t != o[3] or nd != o[4]:
                mon.fail(
                    "wrong-thread-or-needle",
                    "change %d selects thread %r needle %r, expected thread %r needle %r" % (n_change, t, nd, o[3], o[4]),
                    dict(r.detail(n), plan=r.used),
                )
    if n_change >= 2:
        mon.sig([(o[3], o[4]) for o in ref if o[3] is not None], s.get("needle_count"), tcc)
        mon.sample({"settings": s, "source": show(r.src, 12), "changes": [(o[3], o[4]) for o in ref if o[3] is not None]})
    th = [t.color & 0xFFFFFF for t in r.q.threadlist]
    if tcc == NEEDLE_SET:
        if th != [d["color"] for d in specs]:
            mon.fail("threads-changed", "a needle based design must carry every thread of its source", dict(r.detail(), threads=th))
        return
    if len(th) != len(r.used):
        mon.fail("thread-count", "%d threads for %d colour blocks" % (len(th), len(r.used)), dict(r.detail(), used=r.used))
    for k, (c, u) in enumerate(zip(th, r.used)):
        if u < len(specs):
            mon.count("thread_checks")
            if c != specs[u]["color"]:
                mon.fail("wrong-thread", "block %d is given colour %06x, expected thread %d = %06x" % (k, c, u, specs[u]["color"]),
                         dict(r.detail(), used=r.used))
    # every stitch is sewn in the colour of its block when the emitted stream is walked block by block
    if tcc == COLOR_CHANGE and r.used:
        want = []
        cur = 0
        seen = False
        for o in ref:
            if o[2] == COLOR_CHANGE:
                cur += 1
            if o[2] == STITCH:
                want.append(r.used[cur])
        got = []
        for blk, thread in r.q.get_as_stitchblock() or ():
            got.extend([thread.color & 0xFFFFFF] * len([1 for x in blk]))
        mon.count("sewn_colour_checks", len(want))
        if len(got) != len(want):
            mon.fail("stitches-lost-in-blocks", "the colour walk saw %d stitches of %d" % (len(got), len(want)), r.detail())
        for k, (g, w) in enumerate(zip(got, want)):
            if w < len(specs) and g != specs[w]["color"]:
                mon.fail("stitch-in-wrong-colour", "stitch %d is sewn in %06x, expected thread %d = %06x" % (k, g, w, specs[w]["color"]),
                         r.detail())
