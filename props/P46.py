"""Metamorphic: the same design with and without numbers on the commands that do not take them."""
import random

from lib import enc, fmts, gen
from lib.cmds import *

ID = "P46"
LEVEL = "exploration"
RULE = (
    "random designs and command soups, each also with thread, needle and order numbers packed on some of the commands that take none (all but thread changes, change sequences and the empty command), through every writer with random settings, "
    "encoded or not, the encoder with random settings, every pass and merge, the matrix operations and the queries; oracle: the result of the design without the numbers: files equal byte for byte (VP3, CSV and JSON, "
    "which store such numbers: equal once read back, but for the numbers), rows equal but for the numbers, equal counts, bounds, blocks, threads and refusals; "
    "non-trivial = at least 3 commands carry numbers; distinct by kinds, numbers and operation")
ASSUMPTIONS = ["VP3 writes a stitch with a thread number in its long form, which reads back as the same stitch"]
MIN_EVENTS = {"files": 3000, "encoded": 1500, "passes": 1500, "queries": 1500, "numbered": 60000, "rows": 100000}
TAKES = (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET, SET_CHANGE_SEQUENCE)
STORES = ("vp3", "csv", "json")


def cases(tier):
    return 12000 if tier == "quick" else 150000


def plain(rows):
    return [(r[0], r[1], r[2] if base(r[2]) in TAKES else base(r[2])) for r in rows]


def value(t):
    return t and sorted((k, repr(v)) for k, v in vars(t).items())


def outcome(f, seed):
    random.seed(seed)  # fillers are random threads
    try:
        return f()
    except Exception as e:
        return "refused: %s %s" % (type(e).__name__, e)


def state(p):
    return plain(p.stitches), [value(t) for t in p.threadlist], {k: repr(v) for k, v in p.extras.items()}


def numbered(rows, rng):
    share, which = rng.choice((0.1, 0.5, 1)), rng.choice(((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1), (1, 1, 0)))
    kinds = None if rng.random() < 0.6 else rng.sample((STITCH, JUMP, TRIM, STOP, END, SEQUIN_EJECT, SLOW, FAST, SEQUENCE_BREAK), 4)
    out, n = [], 0
    for x, y, c in rows:
        if c != -1 and base(c) not in TAKES and rng.random() < share and (kinds is None or base(c) in kinds):
            c = pack(c, *(rng.choice((0, 1, 7, 254, rng.randrange(255))) if w else None for w in which))
            n += 1
        out.append([x, y, c])
    return out, n


def query(p):
    out = [p.bounds(), p.count_stitches(), p.count_color_changes(), p.count_needle_sets(), p.count_threads()]
    out += [p.count_stitch_commands(c) for c in (STITCH, JUMP, TRIM, STOP, END, SEQUIN_EJECT, COLOR_BREAK)]
    out.append([plain(p.get_match_commands(c)) for c in (STITCH, TRIM, COLOR_CHANGE)])
    for blocks in (p.get_as_stitchblock, p.get_as_colorblocks):
        out.append([(plain(b), value(t)) for b, t in blocks()])
    out.append([plain(b) for b in p.get_as_command_blocks()])
    out.append(sorted(value(t) for t in p.get_unique_threadlist()))
    return out


def changed(p, op):
    r = op(p)
    return state(p if r is None else r)


def passes(rng):
    from pyembroidery import EmbMatrix, EmbPattern

    m = EmbMatrix()
    m.post_rotate(rng.randrange(360))
    j, d, clip = rng.choice((1, 2, 3)), rng.choice((None, 20)), rng.random() < 0.5
    base_rows = [[0, 0, STITCH], [9, 9, STITCH], [9, 9, COLOR_CHANGE], [20, 9, STITCH], [20, 9, END]]

    def onto(p):
        q = gen.make_pattern(base_rows, [{"color": 1}, {"color": 2}])
        q.add_pattern(p, *args)
        return q

    def under(p):
        p.add_pattern(gen.make_pattern(base_rows, [{"color": 1}, {"color": 2}]), *args)

    args = rng.choice(((), (5, 6), (5, None, 2), (None, None, 2, 3, 30)))
    return rng.choice((
        ("trims", lambda p: p.interpolate_trims(j, d, clip)),
        ("frame_eject", lambda p: p.interpolate_frame_eject()),
        ("dup_as_stop", lambda p: p.interpolate_duplicate_color_as_stop()),
        ("stop_as_dup", lambda p: p.interpolate_stop_as_duplicate_color()),
        ("stop_as_needle", lambda p: p.interpolate_stop_as_duplicate_color(NEEDLE_SET)),
        ("merge_jumps", lambda p: p.get_pattern_merge_jumps()),
        ("merge_untrimmed", lambda p: p.get_pattern_interpolate_trim(j)),
        ("stable", lambda p: p.get_stable_pattern()),
        ("fix_count", lambda p: p.fix_color_count()),
        ("center", lambda p: p.move_center_to_origin()),
        ("transform", lambda p: p.transform(m)),
        ("copy", lambda p: p.copy()),
        ("add_onto", onto),
        ("add_under", under),
    ))


def case(i, rng, mon):
    soupy = rng.random() < 0.4
    if soupy:
        rows = gen.soup(rng, rng.choice((5, 20, 60)), changeseq=rng.choice((0, 0, 0.05)))
        nb = 4
    else:
        rows, nb = gen.design(rng, mode=rng.choice(("int", "int", "dec")), sequins=rng.random() < 0.3, speeds=rng.random() < 0.3, needles=rng.random() < 0.3)
    if rng.random() < 0.3:  # the file itself, without the encoder's work
        rows = [r for r in rows if base(r[2]) in (STITCH, JUMP, TRIM, STOP, END, COLOR_CHANGE, NEEDLE_SET, SEQUIN_EJECT, SLOW, FAST)]
    rows2, n = numbered(rows, rng)
    mon.count("numbered", n)
    specs = gen.threads(rng, rng.choice((nb, nb, nb + 1, max(1, nb - 1))), meta=rng.random() < 0.3)
    extras = {"name": "x"}
    p, q = gen.make_pattern(rows, specs, extras), gen.make_pattern(rows2, specs, extras)
    seed = rng.random()
    r = rng.random()
    if r < 0.5:
        f = rng.choice(fmts.WRITABLE)
        s = fmts.random_settings(rng, f.ext)
        if rng.random() < 0.3:
            s["encode"] = False
        elif rng.random() < 0.5:
            s.update(enc.settings(rng))
        if f.ext == "jef":
            s["date"] = "20200102030405"
        what = "writing " + f.ext
        mon.note(what, s)

        def run(a):
            data = fmts.write(f.ext, a, dict(s))
            return state(fmts.read(f.ext, data)) if f.ext in STORES else data

        mon.count("files")
        mon.count("file:" + f.ext)
    elif r < 0.7:
        s = enc.settings(rng)
        what = "encoding"
        mon.note(what, s)
        run = lambda a: state(a.get_normalized_pattern(dict(s)))
        mon.count("encoded")
    elif r < 0.85:
        what, op = passes(rng)
        s = None
        mon.note(what)
        run = lambda a: changed(a, op)
        mon.count("passes")
        mon.count("pass:" + what)
    else:
        what, s, run = "queries", None, query
        mon.note(what)
        mon.count("queries")
    a, b = outcome(lambda: run(p), seed), outcome(lambda: run(q), seed)
    mon.count("rows", len(rows))
    if isinstance(a, str) and a.startswith("refused"):
        mon.count("refused")
    if a != b:
        detail = {"operation": what, "settings": s, "design": show(rows2, 80), "without numbers": repr(a)[:1500], "with numbers": repr(b)[:1500]}
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b):
            k = next(k for k in range(len(a)) if a[k] != b[k])
            detail["part"] = k
            if isinstance(a[k], list) and isinstance(b[k], list):
                j = next((j for j in range(min(len(a[k]), len(b[k]))) if a[k][j] != b[k][j]), min(len(a[k]), len(b[k])))
                detail["first difference"] = (j, repr(a[k][j:j + 3]), repr(b[k][j:j + 3]))
        mon.fail("numbers:" + what, "%s depends on numbers that its commands do not take" % what, detail)
    mon.count("assertions")
    mon.check([tuple(x) for x in q.stitches] == [tuple(x) for x in rows2] or r >= 0.7 and r < 0.85, "source", "%s changed its source" % what, {"design": show(rows2, 60)})
    if n >= 3:
        mon.sig(what, [x[2] for x in rows2])
    mon.sample({"operation": what, "settings": s, "design": show(rows2, 12)})
