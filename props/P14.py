from lib import enc, gen
from lib.cmds import *

ID = "P14"
LEVEL = "exploration"
RULE = (
    "hostile soups of every documented command under random settings; the emitted stream is checked online against the "
    "grammar of writable streams; non-trivial = at least 3 different middle level commands in the source; distinct by emitted kinds"
)
ASSUMPTIONS = ["matrix commands are non-degenerate", "thread/needle indexes 0..254"]
MIN_EVENTS = {"events": 100000}
CORE = {STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, NEEDLE_SET, SEQUIN_MODE, SEQUIN_EJECT, SLOW, FAST}
MATRIX = [MATRIX_TRANSLATE, MATRIX_SCALE_ORIGIN, MATRIX_ROTATE_ORIGIN, MATRIX_RESET, MATRIX_SCALE, MATRIX_ROTATE]


def cases(tier):
    return 50000 if tier == "quick" else 250000


def case(i, rng, mon):
    from pyembroidery import EmbPattern

    s = enc.settings(rng)
    src = gen.soup(rng, rng.choice((0, 1, 3, 8, 25, 80)), span=rng.choice((30, 200)), mode=rng.choice(("int", "half", "f")),
                   flags=True, changeseq=0.2)
    if rng.random() < 0.3:
        for _ in range(rng.randint(1, 3)):
            c = rng.choice(MATRIX)
            a, b = {MATRIX_TRANSLATE: (rng.randint(-50, 50), 7), MATRIX_ROTATE: (rng.choice((90, 33)), 0),
                    MATRIX_ROTATE_ORIGIN: (rng.choice((90, -45)), 0)}.get(c, (rng.choice((2, 0.5, -1)), rng.choice((1, 3))))
            src.insert(rng.randrange(len(src) + 1), [a, b, c])
    r = enc.Run(src, gen.threads(rng, rng.choice((0, 1, 40)), meta=True), s, extras={"name": "n", "k": 3})
    tcc = r.settings.get("thread_change_command", COLOR_CHANGE)
    if tcc == NEEDLE_SET and s.get("needle_count", 5) <= 1:
        tcc = STOP
    kinds = [c for _, _, c in r.real]
    mon.count("events", len(kinds))
    if len(set(base(x[2]) for x in r.src if base(x[2]) >= 0xB0)) >= 3:
        mon.sig(kinds)
        mon.sample({"settings": s, "source": show(r.src, 12), "emitted": show(r.real, 16)})

    def bad(key, msg, n=None):
        mon.fail(key, msg, r.detail(n))

    sequin = False
    uses_sequins = s.get("sequin_contingency") == SEQUIN_UTILIZE or any(base(x[2]) == SEQUIN_UTILIZE for x in r.src)
    for n, (x, y, c) in enumerate(r.real):
        if c not in CORE:
            bad("not-a-core-command", "the emitted stream contains %s" % name(c), n)
        if not (isinstance(x, (int, float)) and isinstance(y, (int, float)) and x == x and y == y):
            bad("bad-position", "emitted position %r,%r" % (x, y), n)
        if c == END and n != len(kinds) - 1:
            bad("end-not-last", "END is followed by %d more commands" % (len(kinds) - 1 - n), n)
        if c == COLOR_CHANGE and tcc != COLOR_CHANGE:
            bad("wrong-change-command", "a COLOR_CHANGE was emitted where threads change by %s" % name(tcc), n)
        if c == NEEDLE_SET and tcc != NEEDLE_SET:
            bad("wrong-change-command", "a NEEDLE_SET was emitted where threads change by %s" % name(tcc), n)
        if c in (SLOW, FAST) and s.get("writes_speeds") is False:
            bad("speed-not-writable", "a speed command was emitted to a writer without speeds", n)
        if c in (SEQUIN_MODE, SEQUIN_EJECT) and not uses_sequins:
            bad("sequin-not-writable", "%s was emitted without sequin support" % name(c), n)
        if c == SEQUIN_MODE:
            sequin = not sequin
        elif c == SEQUIN_EJECT and not sequin:
            bad("eject-outside-mode", "a sequin is ejected outside of sequin mode", n)
        elif c in (JUMP, TRIM) and sequin and uses_sequins and s.get("sequin_contingency") == SEQUIN_UTILIZE and not any(
            base(q[2]) in (SEQUIN_JUMP, SEQUIN_STITCH, SEQUIN_REMOVE) for q in r.src
        ):
            bad("jump-in-sequin-mode", "%s within sequin mode would eject a sequin" % name(c), n)
    if not kinds or kinds[-1] != END:
        bad("no-end", "the emitted stream does not finish with END")
    if kinds.count(END) != 1:
        bad("many-ends", "%d END commands were emitted" % kinds.count(END))
    # encoding a pattern onto itself gives the same stream
    if i % 4 == 0:
        from pyembroidery.EmbEncoder import Transcoder

        p = gen.make_pattern(r.src, r.specs, {"name": "n", "k": 3})
        Transcoder(dict(s)).transcode(p, p)
        d = enc.first_diff([(t[0], t[1], t[2] & 0xFF) for t in p.stitches], r.real)
        if d is not None:
            bad("in-place-differs", "encoding a pattern onto itself differs from encoding it into a new one", d)
        if p.extras != r.q.extras or (len(r.specs) > 30 and [t.color for t in p.threadlist] != [t.color for t in r.q.threadlist]):
            bad("in-place-differs", "encoding a pattern onto itself lost its threads or metadata")
    # metadata travels along
    if r.q.extras != {"name": "n", "k": 3}:
        bad("metadata-lost", "metadata after encoding: %r" % (r.q.extras,))
