from lib import fmts, gen, refenc, rt, timing
from lib.cmds import *
from lib.work import Budget, Work

ID = "P38"
LEVEL = "exploration"
RULE = (
    "designs of up to 4000 rows, most of them a short random sequence of commands repeated (every command in any mix, so that one regime lasts), encoded under random settings, "
    "written in every format, passed through every post-processing pass, copied, merged, viewed, counted and transformed; oracle: loop iterations and calls of the interpreter, "
    "bytes and write calls stay below linear bounds in the rows of the design and of its encoding (reference encoder), its colours and, for images, pixels; "
    "and CPU time of every operation on designs of 2500 and 40000 rows in regimes of stitches, jumps, trims, breaks, stops and changes, for the work inside C functions of the "
    "interpreter: sixteen times the rows may take at most 48 times as long; "
    "non-trivial = at least 200 rows; distinct by (operation, repeated sequence, length)")
ASSUMPTIONS = [
    "the bounds are some four times what the code needs; work inside C functions of the interpreter is bounded by time only, for runs above half a second",
    "PES version 6 looks up each of its (at most 255) colours among the others",
    "colour breaks are followed by sewing (each looks ahead for it); an operation that refuses the design is bounded like any other",
]
MIN_EVENTS = {"operations": 5000, "long_designs": 2000, "loop_iterations": 5000000, "timed": 250}
CPU_LIMIT = 40.0
OPS = ["encode"] * 4 + ["write:" + f.ext for f in fmts.W] + [
    "stable", "merge_jumps", "interpolate_trim", "interpolate_trims", "dup_as_stop", "stop_as_dup", "frame_eject", "copy", "add", "iadd", "blocks", "counts", "bounds", "centre", "transform",
    "equal", "fix_color_count", "edit"]


def cases(tier):
    return counted(tier) + len(OPS) * len(TILES) * (1 if tier == "quick" else 8)


def counted(tier):
    return 300 * len(OPS) if tier == "quick" else 6000 * len(OPS)


TILES = (
    (STITCH,), (STITCH, STITCH, JUMP), (STITCH, STITCH, TRIM, JUMP), (JUMP,), (STITCH, STOP), (STITCH, COLOR_CHANGE), (STITCH, SEQUIN_EJECT, TRIM),
    (STITCH, STITCH_BREAK, JUMP, SEQUENCE_BREAK), (STITCH, COLOR_BREAK, NEEDLE_AT), (STITCH, NEEDLE_SET, SEW_TO, FRAME_EJECT))


def timed(i, rng, mon):
    op = OPS[i % len(OPS)]
    tile = TILES[i // len(OPS) % len(TILES)]
    s = {}
    if op == "encode":
        s = {k: v for k, v in (("max_stitch", 127), ("max_jump", 127), ("tie_on", rng.random() < 0.5), ("tie_off", rng.random() < 0.5), ("explicit_trim", rng.random() < 0.5))}
    elif op.startswith("write:"):
        ext = op[6:]
        if any(c in tile for c in (STOP, COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK)) and ext in ("pec", "pes", "tbf", "png"):
            return  # not that many changes
        s = fmts.random_settings(rng, ext)
        s.pop("linewidth", None)
    specs = gen.threads(rng, rng.choice((0, 1, 3)))
    pick = rng.random()

    def make(n):
        d = [[(3 * k) % 100, (7 * k) % 90, tile[k % len(tile)]] for k in range(n)]
        return lambda: (gen.make_pattern(d, specs),)

    small, big, ok = timing.compare(make(2500), make(2500 * timing.TIMES), lambda p: perform(op, p, s, None if op != "edit" else [list(r) for r in p.stitches], pick), 0.5)
    mon.count("timed")
    mon.count("timed_ms", int(big * 1000))
    mon.sig("timed", op, tile)
    mon.check(ok, "time:" + op, "%s of 40000 rows of %s takes %.2f s, of 2500 rows %.4f s" % (op, "/".join(name(c) for c in tile), big, small), lambda: s)


def perform(op, p, s, d, pick):
    import pyembroidery as pe

    if op == "encode":
        p.get_normalized_pattern(s)
    elif op.startswith("write:"):
        out = fmts.sink(fmts.BY[op[6:]])
        pe.EmbPattern.write_embroidery(fmts.BY[op[6:]].writer(), p, out, s)
        return out
    elif op == "stable":
        p.get_stable_pattern()
    elif op == "merge_jumps":
        p.get_pattern_merge_jumps()
    elif op == "interpolate_trim":
        p.get_pattern_interpolate_trim((1, 3, 8)[int(pick * 3)])
    elif op == "interpolate_trims":
        p.interpolate_trims((None, 3)[int(pick * 2)], (None, 30)[int(pick * 4) % 2], int(pick * 8) % 2 == 0)
    elif op == "dup_as_stop":
        p.interpolate_duplicate_color_as_stop()
    elif op == "stop_as_dup":
        p.interpolate_stop_as_duplicate_color()
    elif op == "frame_eject":
        p.interpolate_frame_eject()
    elif op == "copy":
        p.copy()
    elif op == "add":
        p + p.copy()
    elif op == "iadd":
        p += p.copy()
    elif op == "blocks":
        for v in (p.get_as_colorblocks(), p.get_as_stitchblock(), p.get_as_command_blocks(), p.get_as_stitches()):
            for _ in v:
                pass
    elif op == "counts":
        p.count_stitch_commands(STITCH), p.count_color_changes(), p.count_stitches(), p.count_threads(), p.get_match_commands(JUMP)
        p.get_unique_threadlist(), p.get_singleton_threadlist()
    elif op == "bounds":
        p.bounds()
    elif op == "centre":
        p.move_center_to_origin()
    elif op == "transform":
        m = pe.EmbMatrix()
        m.post_rotate(30)
        p.transform(m)
    elif op == "equal":
        p == p.copy()
    elif op == "fix_color_count":
        p.fix_color_count()
    else:
        q = pe.EmbPattern()
        for r in d:
            q.add_stitch_absolute(r[2], r[0], r[1])
        q.add_block([(r[0], r[1]) for r in d])


def build(rng):
    n = rng.choice((0, 1, 10, 50, 200, 400, 1000, 2000, 4000))
    if rng.random() < 0.2:
        d = gen.soup(rng, min(n, 1500), span=rng.choice((3, 20, 60)), box=400)
        return d, ("soup", n)
    pool = sorted(set(gen.SOUP)) + [END] * (rng.random() < 0.05)
    tile = [rng.choice(pool) if rng.random() < 0.7 else STITCH for _ in range(rng.choice((1, 1, 2, 2, 3, 5, 8)))]
    if COLOR_BREAK in tile and STITCH not in tile:
        tile.append(STITCH)  # a colour break looks ahead for sewing
    step = rng.choice((0, 1, 5, 30, 150))
    d = []
    x = y = 0
    while len(d) < n:
        for c in tile:
            x = max(-300, min(300, x + rng.randint(-step, step)))
            y = max(-300, min(300, y + rng.randint(-step, step)))
            d.append([x, y, c])
    if rng.random() < 0.5:
        d.append([x, y, END])
    return d, (tuple(tile), n)


def case(i, rng, mon):
    if i >= counted(mon.tier):
        return timed(i - counted(mon.tier), rng, mon)
    op = OPS[i % len(OPS)]
    d, kind = build(rng)
    p = gen.make_pattern(d, gen.threads(rng, rng.choice((0, 1, 3, 30)), meta=True))
    s = {}
    if op == "encode":
        s = {k: v for k, v in (("max_stitch", rng.choice((10, 127, 1000))), ("max_jump", rng.choice((10, 127, 1000))), ("tie_on", rng.random() < 0.5), ("tie_off", rng.random() < 0.5),
                               ("full_jump", rng.random() < 0.5), ("explicit_trim", rng.random() < 0.5))}
        enc, used = refenc.encode(d, len(p.threadlist), s)
    elif op.startswith("write:"):
        ext = op[6:]
        s = fmts.random_settings(rng, ext)
        enc, used = rt.encoded(ext if ext in rt.LIMITS else "pec" if ext in ("svg", "txt") else "gcode", d, len(p.threadlist), {})
    else:
        enc, used = d, [r for r in d if base(r[2]) in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET)]
    rows = len(d) + len(enc)
    colours = 1 + len(used) + len(p.threadlist) + sum(base(r[2]) == STOP for r in enc)
    budget = 5000 + 70 * rows + 100 * colours
    if op.startswith("write:"):
        budget += {"pec": 20000 + 3000 * colours, "pes": 24000 + 3500 * colours + 10 * colours * colours, "jef": 700 * colours, "tbf": 6000, "json": 5000}.get(ext, 0)
        if ext == "png":
            lw = s.get("linewidth", 3)
            budget += 40 * 620 * 30 + rows * 400 * (2 + lw) ** 2
    mon.note(op, s, kind, show(d, 30))
    w = Work(budget)
    over = False
    done = None
    pick = rng.random()
    try:
        with w:
            done = perform(op, p, s, d, pick)
    except Budget:
        over = True
    except Exception as e:
        mon.count("refused:" + type(e).__name__)
    mon.count("operations")
    mon.count("loop_iterations", w.n)
    if len(d) >= 200:
        mon.count("long_designs")
        mon.sig(op, kind)
        mon.sample({"operation": op, "rows": len(d), "encoded": len(enc), "loop iterations": w.n, "bound": budget})
    mon.check(not over, "work:" + op, "%s of %d rows (%d encoded, %d colours) takes more than %d loop iterations and calls" % (op, len(d), len(enc), colours, budget), lambda: show(d, 40))
    if done is not None:
        n = len(done.getvalue())
        mon.count("bytes", n)
        bound = 4000 + (250 if ext in ("json", "csv") else 90) * rows + 400 * colours + 5000 * (ext in ("pec", "pes", "tbf")) + 700 * colours * (ext in ("pec", "pes", "txt", "vp3", "inf")) + (620 * 640 * 5 if ext == "png" else 0)
        bound += 1200 * colours * (ext in ("csv", "json", "gcode"))
        mon.check(n <= bound, "bytes:" + op, "%d bytes for %d rows (%d encoded, %d colours)" % (n, len(d), len(enc), colours), lambda: show(d, 40))
