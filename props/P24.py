from lib import gen
from lib.cmds import *

ID = "P24"
LEVEL = "exploration"
RULE = (
    "random designs and soups with enough or too few threads; the rows seen through every view compared, by identity, with the rows of the "
    "pattern and the documented partition; counts recomputed; non-trivial = at least two blocks; distinct by kinds"
)
ASSUMPTIONS = ["missing threads are filled with arbitrary ones"]
MIN_EVENTS = {"rows": 20000, "blocks": 5000, "equal_neighbours": 20000}


def cases(tier):
    return 35000 if tier == "quick" else 300000


def case(i, rng, mon):
    from pyembroidery import EmbThread

    if rng.random() < 0.003:  # more blocks than a byte counts
        src, _ = gen.design(rng, blocks=rng.randint(256, 600), per=1, change=rng.choice(("mixed", "change", "break", "needle")))
    elif rng.random() < 0.5:
        src, _ = gen.design(rng, change=rng.choice(("mixed", "change", "break", "needle")), needles=rng.random() < 0.3, sequins=rng.random() < 0.2, huge=0.002)
    else:
        src = gen.soup(rng, rng.choice((0, 1, 2, 5, 20, 60)), flags=rng.random() < 0.3, extra=[COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET] * 2)
    nt = rng.choice((0, 1, 3, 60, 60)) if rng.random() > 0.01 else rng.choice((130, 300, 520))
    specs = gen.threads(rng, nt, meta=rng.random() < 0.2)
    for k in range(1, nt):
        if rng.random() < 0.2:  # threads that are equal, as another object
            specs[k] = dict(specs[rng.choice((k - 1, k - 1, rng.randrange(k)))])
    p = gen.make_pattern(src, specs)
    if nt > 1 and rng.random() < 0.2:  # or the same object
        k = rng.randrange(1, nt)
        p.threadlist[k] = p.threadlist[rng.randrange(k)]
    mon.count("equal_neighbours", sum(specs[k] == specs[k - 1] for k in range(1, nt)))
    rows = p.stitches
    ids = {id(r): k for k, r in enumerate(rows)}
    kinds = [r[2] & 0xFF for r in rows]
    mon.count("rows", len(rows))
    info = lambda: {"source": show(src, 60), "threads": nt}

    def thread(t, k, what):
        if k < nt:
            mon.check(t is p.threadlist[k] or t == p.threadlist[k], "thread", "%s carries thread %r, expected thread %d %r" % (what, t, k, p.threadlist[k]), info)
        else:
            mon.check(isinstance(t, EmbThread), "thread", "%s carries no thread" % what, info)

    def same(block, lo, hi, what):
        got = [ids.get(id(r)) if id(r) in ids else [k for k, q in enumerate(rows) if q == r][:1] for r in block]
        mon.check(len(block) == hi - lo and all(a == rows[k] for a, k in zip(block, range(lo, hi))), "rows",
                  "%s holds rows %r, expected %d..%d" % (what, got, lo, hi - 1), info)

    # stitch blocks: maximal runs of stitches, with the thread of the colour block
    runs, change, start = [], 0, None
    for k, c in enumerate(kinds + [-1]):
        if c == STITCH:
            if start is None:
                start, tt = k, change
        else:
            if start is not None:
                runs.append((start, k, tt))
                start = None
            if c == COLOR_CHANGE:
                change += 1
    got = list(p.get_as_stitchblock())
    mon.count("blocks", len(got))
    mon.check(len(got) == len(runs), "stitchblocks", "%d stitch blocks, expected %d" % (len(got), len(runs)), info)
    for n, ((b, t), (lo, hi, k)) in enumerate(zip(got, runs)):
        same(b, lo, hi, "stitch block %d" % n)
        thread(t, k, "stitch block %d" % n)
    # colour blocks
    want, lo = [], 0
    for k, c in enumerate(kinds):
        if c == COLOR_BREAK:
            if lo != k:
                want.append((lo, k))
            lo = k + 1
        elif c == COLOR_CHANGE:
            want.append((lo, k + 1))
            lo = k + 1
        elif c == NEEDLE_SET and lo != k:
            want.append((lo, k))
            lo = k
    if lo != len(rows):
        want.append((lo, len(rows)))
    got = list(p.get_as_colorblocks())
    mon.count("blocks", len(got))
    mon.check(len(got) == len(want), "colorblocks", "%d colour blocks, expected %d" % (len(got), len(want)), info)
    for n, ((b, t), (lo, hi)) in enumerate(zip(got, want)):
        same(b, lo, hi, "colour block %d" % n)
        thread(t, n, "colour block %d" % n)
    mon.check(sum(len(b) for b, _ in got) == len(rows) - kinds.count(COLOR_BREAK), "partition", "colour blocks do not cover the rows once", info)
    # command blocks
    got = list(p.get_as_command_blocks())
    mon.count("blocks", len(got))
    at = 0
    for n, b in enumerate(got):
        same(b, at, at + len(b), "command block %d" % n)
        mon.check(len({r[2] & 0xFF for r in b}) <= 1, "commandblock", "command block %d mixes commands" % n, info)
        if at and b:
            mon.check(kinds[at - 1] != kinds[at], "commandblock", "command block %d continues the one before" % n, info)
        at += len(b)
    mon.check(at == len(rows), "partition", "command blocks cover %d of %d rows" % (at, len(rows)), info)
    # stitches, matches, counts
    got = list(p.get_as_stitches())
    want = [(k, r[0], r[1], r[2] & 0xFF) + split(r[2] & 0xFFFFFFFF) for k, r in enumerate(rows)]
    mon.check([tuple(g) for g in got] == want or rows and any(r[2] == -1 for r in rows) and [g[:4] for g in got] == [w[:4] for w in want],
              "stitches", "per stitch view differs", lambda: (info(), got[:50], want[:50]))
    for c in set(kinds) | {STITCH, JUMP, COLOR_CHANGE, NEEDLE_SET, TRIM}:
        n = kinds.count(c)
        mon.check(p.count_stitch_commands(c) == n, "count", "count of %s is %d, expected %d" % (name(c), p.count_stitch_commands(c), n), info)
        g = list(p.get_match_commands(c))
        mon.check(len(g) == n and all(r is rows[k] or r == rows[k] for r, k in zip(g, [k for k, x in enumerate(kinds) if x == c])), "match",
                  "rows matching %s" % name(c), info)
    mon.check(p.count_color_changes() == kinds.count(COLOR_CHANGE) and p.count_needle_sets() == kinds.count(NEEDLE_SET)
              and p.count_threads() == nt, "count", "change, needle or thread counts", info)
    tl = p.threadlist
    s = p.get_singleton_threadlist()
    w = [t for k, t in enumerate(tl) if not k or t != tl[k - 1]]
    mon.check(s == w, "singleton", "singleton thread list is %r, expected %r" % (s, w))
    u = p.get_unique_threadlist()
    uu = []
    for t in tl:
        if t not in uu:
            uu.append(t)
    mon.check(len(u) == len(uu) and all(t in u for t in uu), "unique", "unique thread list is %r" % (u,))
    for k in range(nt):
        mon.check(p.get_thread(k) is tl[k] and p.get_thread_or_filler(k) is tl[k], "thread", "thread %d" % k)
    mon.check(isinstance(p.get_thread_or_filler(nt), EmbThread) and len(tl) == nt, "filler", "filler thread")
    # enough threads for every colour block
    sewn, n = True, 0
    for c in kinds:
        if c in SEWING and sewn:
            n, sewn = n + 1, False
        elif c in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
            sewn = True
    before = [list(r) for r in rows]
    p.fix_color_count()
    mon.check(len(p.threadlist) == max(nt, n), "fix-count", "%d threads after fixing the count, expected %d" % (len(p.threadlist), max(nt, n)), info)
    mon.check([list(r) for r in p.stitches] == before, "rows-changed", "a view changed the rows", info)
    if len(runs) > 1:
        mon.sig(kinds)
    mon.sample({"source": show(src, 14), "stitch_blocks": len(runs)})
