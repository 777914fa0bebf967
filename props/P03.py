from lib import fmts, gen, palettes, rt
from lib.cmds import *
from lib.palettes import dist

ID = "P03"
LEVEL = "exploration"
RULE = (
    "random designs with repeated, near and palette colours, stops, empty colour blocks and thread texts written and read in JEF, PEC, PES "
    "(versions 1 and 6, full and truncated), VP3, XXX, extended DST and TBF; oracle: the colour of every stitch of the source design, and for palette "
    "formats brute force conditions on the assigned palette entries; non-trivial = at least 2 colours; distinct by (format, colour sequence)"
)
ASSUMPTIONS = [
    "neighbouring colour blocks have different colours where the format keeps stops as repeated colours (PEC, PES)",
    "the first colour block sews before its first change or stop",
    "an extended DST header holds about 25 colours; TBF keeps the needle of each block and the colour of each thread",
    "palette formats: at most as many different colours as the palette has",
]
MIN_EVENTS = {"stitch_colours": 50000}
FORMATS = ("jef", "pec", "pes1", "pes6", "vp3", "xxx", "dst", "tbf")


def cases(tier):
    return 24000 if tier == "quick" else 200000


def stitch_colours(rows, colours, changes=(COLOR_CHANGE,)):
    """(x, y, colour) of every stitch, walking the rows"""
    out = []
    k = 0
    for r in rows:
        b = base(r[2])
        if b in changes:
            k += 1
        elif b == STITCH:
            out.append((r[0], r[1], colours[k] if k < len(colours) else None))
    return out


def case(i, rng, mon):
    fm = FORMATS[i % len(FORMATS)]
    ext = fm[:3]
    blocks = rng.choice((1, 2, 3, 5, 8, 14) + (() if ext == "dst" else (20, 40)))
    if ext in ("vp3", "xxx", "jef") or fm == "pes6":
        if rng.random() < 0.05:
            blocks = rng.choice((70, 130, 200))
    pecish = ext in ("pec", "pes")
    rows, nb = gen.design(rng, blocks=blocks, per=rng.choice((1, 2, 4)), span=30, stops=False, trims=rng.random() < 0.5, jumps=rng.random() < 0.5,
                          breaks=rng.random() < 0.3, change=rng.choice(("mixed", "break", "change")), lead=rng.random() < 0.5)
    rows = [r for r in rows if base(r[2]) != FRAME_EJECT]
    sewnyet = False
    out = []
    for k, r in enumerate(rows):
        out.append(r)
        b = base(r[2])
        if b == STITCH:
            sewnyet = True
            if rng.random() < 0.06:
                for _ in range(rng.choice((1, 1, 2))):
                    out.append([r[0], r[1], STOP])
            elif rng.random() < 0.02:  # an empty colour block, or several
                for _ in range(rng.choice((1, 1, 2))):
                    out.append([r[0], r[1], COLOR_CHANGE])
    rows = out
    nth = len([r for r in rows if base(r[2]) in (COLOR_CHANGE, COLOR_BREAK)]) + 1 + rng.choice((0, 0, 3))
    if ext == "dst" and nth + len([r for r in rows if base(r[2]) == STOP]) > 24:
        return
    if pecish and sum(base(r[2]) in (COLOR_CHANGE, COLOR_BREAK, STOP) for r in rows) > 230:  # a PEC block numbers at most 255 colours
        return
    mode = rng.choice(("random", "few", "near", "palette"))
    pal = palettes.JEF if ext == "jef" else palettes.PEC
    few = [rng.randrange(1 << 24) for _ in range(4)]
    cs = []
    for k in range(nth):
        for _ in range(50):
            if mode == "random":
                c = rng.randrange(1 << 24)
            elif mode == "few":
                c = rng.choice(few)
            elif mode == "near":
                c = few[0] ^ rng.choice((0, 1, 2, 3, 0x100, 0x010000, 0x010101, 0x8))
            else:
                c = rng.choice(pal[1:])
            if not cs or cs[-1] != c:
                break
            if not pecish and rng.random() < 0.1:
                break
        cs.append(c)
    if pecish and (any(a == b for a, b in zip(cs, cs[1:])) or fm != "pes6" and len(set(cs)) > 60):
        return
    meta = ext in ("vp3", "pes") and rng.random() < 0.5
    specs = [{"color": c} for c in cs]
    if meta:
        for d in specs:
            for k in ("description", "catalog_number", "brand", "chart"):
                if rng.random() < 0.5:
                    d[k] = gen.text(rng, "mix")
    ws = {"jef": {"date": "20200102030405", "trims": rng.random() < 0.5}, "dst": {"version": "extended"}}.get(ext, {})
    if fm == "pes1":
        ws = {"version": rng.choice((1, "1", "1t"))}
    elif fm == "pes6":
        ws = {"version": rng.choice((6, "6", "6t"))}
    mon.note("format", fm, ws)
    p = gen.make_pattern(rows, specs)
    data = fmts.write(ext, p, ws)
    q = fmts.read(ext, data)
    want = []
    enc, used = rt.encoded(ext, rows, nth, {})
    k = 0
    seq = [cs[t] for t in used]
    for o in enc:
        if o[2] == COLOR_CHANGE:
            k += 1
        elif o[2] == STITCH:
            want.append((o[0], o[1], seq[k]))
    qc = [None if t is None else t.color & 0xFFFFFF for t in q.threadlist]
    detail = lambda: {"options": ws, "source": show(rows, 100), "colours": [hex(c) for c in cs], "read": show(q.stitches, 100),
                      "read colours": [c if c is None else "%06x" % c for c in qc]}
    mon.count("files_" + fm)
    if len(seq) > 1:
        mon.sig(fm, seq)
        mon.sample({"format": fm, "colours": [hex(c) for c in seq[:6]], "read": [c if c is None else hex(c) for c in qc[:6]]})
    if ext == "tbf":
        mon.check(qc == cs, "threads-changed", "tbf: threads read back are %s, the design has %s" % (qc, cs), detail)
        needles = [split(r[2])[1] for r in q.stitches if base(r[2]) == NEEDLE_SET]
        wn = [o[4] for o in enc if o[2] == NEEDLE_SET]
        mon.check(needles == wn, "needles-changed", "tbf: needles %s, expected %s" % (needles, wn), detail)
        mon.count("stitch_colours", len(want))
        return
    got = stitch_colours(q.stitches, qc)
    if pecish:  # drop repeats in place
        g2, j = [], 0
        for g in got:
            if j < len(want) and g[:2] == want[j][:2]:
                g2.append(g)
                j += 1
        got = g2
    mon.check(len(got) == len(want), "stitches-changed", "%s: %d stitches read back, %d expected" % (fm, len(got), len(want)), detail)
    assigned = {}
    for k, (g, w) in enumerate(zip(got, want)):
        mon.count("stitch_colours")
        if fm in ("jef", "pec", "pes1"):
            if fm != "jef" and assigned.setdefault(w[2], g[2]) != g[2] or g[2] is None:
                mon.fail("colour-changed", "%s: stitch %d of colour %06x is sewn in %r, an earlier one in %r" % (fm, k, w[2], g[2], assigned.get(w[2])), detail())
        elif g[2] != w[2]:
            mon.fail("colour-changed", "%s: stitch %d is sewn in %s, the design has %06x" % (fm, k, g[2] is not None and "%06x" % g[2], w[2]), detail())
    if fm in ("pec", "pes1"):
        mon.check(len(set(assigned.values())) == len(assigned), "colours-merged", "%s: different colours read back as the same" % fm, detail)
        # every colour of the design got an entry; a nearer entry may only be passed over when another colour has it
        taken = {}
        for t, c in zip(seq, [c for c in blocks_colours(q, qc)]):
            taken[t] = c
        for c, g in assigned.items():
            mon.check(g in palettes.PEC, "not-in-palette", "%s: colour %06x is not a palette colour" % (fm, g), detail)
            for e in palettes.PEC[1:]:
                if not meta and dist(c, e) < dist(c, g) and e not in qc:
                    mon.fail("palette-not-nearest", "%s: colour %06x reads back as %06x although %06x is nearer and unused" % (fm, c, g, e), detail())
    elif fm == "jef":
        bc = blocks_colours(q, qc)
        seqx, dup, odd, blk = [seq[0]], set(), False, 0  # every second stop in a block reads as a change to the same colour
        for o in enc:
            if o[2] == COLOR_CHANGE:
                blk, odd = blk + 1, False
                seqx.append(seq[blk])
            elif o[2] == STOP:
                odd = not odd
                if not odd:
                    dup.add(len(seqx))
                    seqx.append(seq[blk])
        seq = seqx
        mon.check(len(bc) == len(seq), "blocks-changed", "jef: %d colour blocks read back, %d expected" % (len(bc), len(seq)), detail)
        prev = prevc = None
        for k, (c, g) in enumerate(zip(seq, bc)):
            mon.check(g in palettes.JEF, "not-in-palette", "jef: colour %r is not a palette colour" % g, detail)
            best = min(dist(c, e) for e in palettes.JEF[1:])
            if k in dup:
                mon.check(g == prev, "colour-changed", "jef: the colour changed from %06x to %06x at a stop" % (prev, g), detail)
            elif dist(c, g) != best:
                second = min(dist(c, e) for e in palettes.JEF[1:] if e != prev)
                ok = prev is not None and prevc != c and dist(c, prev) == best and dist(c, g) == second
                mon.check(ok, "palette-not-nearest", "jef: block %d of colour %06x reads back as %06x" % (k, c, g), detail)
            if k and prevc != c:
                mon.check(g != prev, "colours-merged", "jef: neighbouring blocks %06x and %06x both read back as %06x" % (prevc, c, g), detail)
            prev, prevc = g, c
        # and every stitch lies in its block
        expect = []
        blk, odd = 0, False
        for o in enc:
            if o[2] == STOP:
                odd = not odd
                blk += not odd
            elif o[2] == COLOR_CHANGE:
                blk, odd = blk + 1, False
            elif o[2] == STITCH:
                expect.append(bc[blk])
        mon.check([g[2] for g in got] == expect, "colour-changed", "jef: stitches changed colour block", detail)


def blocks_colours(q, qc):
    """the colour of each colour block of what was read"""
    n = len([1 for r in q.stitches if base(r[2]) == COLOR_CHANGE]) + 1
    return (qc + [None] * n)[:n]
