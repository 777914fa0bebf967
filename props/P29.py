from lib.cmds import *

ID = "P29"
LEVEL = "exploration"
RULE = (
    "exhaustive over each parameter field (none and 0..254) for every command, pairwise over field extremes, random triples; oracle: the "
    "bit layout of the documentation (thread<<8, needle<<16, order<<24, each plus one); names of all commands; non-trivial = any parameter given"
)
ASSUMPTIONS = ["parameters are none or 0..254 (255 does not fit the field)"]
MIN_EVENTS = {"words": 100000}
CMDS = [c for c in NAMES.values() if c != NO_COMMAND]


def cases(tier):
    return 300 if tier == "quick" else 3000


def one(mon, enc, dec, c, t, n, o):
    w = enc(c, t, n, o)
    mon.count("words")
    if w != pack(c, t, n, o):
        mon.fail("layout", "encode_thread_change(%#x,%r,%r,%r) = %#x, expected %#x" % (c, t, n, o, w, pack(c, t, n, o)))
    if dec(w) != (c & 0xFF, t, n, o):
        mon.fail("unpack", "decode(%#x) = %r, expected %r" % (w, dec(w), (c & 0xFF, t, n, o)))


def once(mon):
    import pyembroidery
    from pyembroidery import EmbConstant
    from pyembroidery.EmbFunctions import (decode_embroidery_command as dec, encode_thread_change as enc, get_command_dictionary,
                                           get_common_name_dictionary)

    vals = [None] + list(range(255))
    for c in CMDS:
        for v in vals:
            one(mon, enc, dec, c, v, None, None)
            one(mon, enc, dec, c, None, v, None)
            one(mon, enc, dec, c, None, None, v)
            one(mon, enc, dec, c, v, v, v)
    ext = [None, 0, 1, 127, 128, 253, 254]
    for c in CMDS:
        for t in ext:
            for n in ext:
                for o in ext:
                    one(mon, enc, dec, c, t, n, o)
    for t in vals:
        for n in vals:
            one(mon, enc, dec, COLOR_CHANGE, t, n, None)
            one(mon, enc, dec, NEEDLE_SET, None, t, n)
    # repacking replaces parameters and keeps the command
    for c in CMDS:
        w = enc(enc(c, 3, 4, 5), 7, None, 9)
        mon.check(w == pack(c, 7, None, 9), "repack", "repacking %#x gives %#x" % (c, w))
        mon.check(dec(c) == (c, None, None, None), "bare", "a bare %#x unpacks to %r" % (c, dec(c)))
    fwd, back = get_command_dictionary(), get_common_name_dictionary()
    for n, v in NAMES.items():
        mon.check(getattr(EmbConstant, n) == v, "constant", "constant %s is %r" % (n, getattr(EmbConstant, n)))
        mon.check(getattr(pyembroidery, n, v) == v, "constant", "exported constant %s differs" % n)
        mon.check(fwd.get(n) == v, "name", "command of %s is %r" % (n, fwd.get(n)))
        mon.check(back.get(v) == n, "name", "name of %r is %r" % (v, back.get(v)))
        mon.sig(n)
    mon.check({v: k for k, v in fwd.items()} == back and {v: k for k, v in back.items()} == fwd, "bijection",
              "the two command dictionaries are not inverse")
    mon.sample({"commands": len(CMDS), "example": "COLOR_CHANGE t3 n4 o5 = %#x" % enc(COLOR_CHANGE, 3, 4, 5)})


def case(i, rng, mon):
    from pyembroidery import EmbPattern
    from pyembroidery.EmbFunctions import decode_embroidery_command as dec, encode_thread_change as enc

    for _ in range(1000):
        c = rng.choice(CMDS)
        t, n, o = (rng.choice((None, rng.randrange(255))) for _ in range(3))
        one(mon, enc, dec, c, t, n, o)
    # the calls of the pattern that carry parameters
    p = EmbPattern()
    want = []
    for _ in range(20):
        t, n, o = (rng.choice((None, rng.randrange(255))) for _ in range(3))
        k = rng.randrange(3)
        if k == 0:
            p.needle_change(n if n is not None else 0)
            want.append((NEEDLE_SET, None, n if n is not None else 0, None))
        elif k == 1:
            if hasattr(p, "color_change"):
                p.color_change(1, 2)
                want.append((COLOR_CHANGE, None, None, None))
        else:
            p.add_command(enc(COLOR_CHANGE, t, n, o), 5, 6)
            want.append((COLOR_CHANGE, t, n, o))
    got = [dec(r[2]) for r in p.stitches]
    mon.check(got == want, "pattern-words", "rows carry %r, expected %r" % (got, want))
    mon.sig(i)
