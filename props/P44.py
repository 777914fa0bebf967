from lib import enc, fmts, gen, rt
from lib.cmds import *

ID = "P44"
LEVEL = "exploration"
RULE = (
    "designs of 1-12 colour blocks with trims, stops, jumps and colour breaks, given fewer or more threads than blocks - none at all, one, one missing, one to five too many - and written in every format, version and with encode on "
    "and off, the block views and exports made from them, and designs whose changes name threads by number, of which they have fewer; oracle: the file of the same design with one thread for each block: rows read back the same, the threads given are kept, there is a thread for "
    "each block that is sewn, threads that nothing is sewn in change nothing; non-trivial = at least 2 blocks; distinct by (format, options, blocks, threads, rows)"
)
ASSUMPTIONS = ["a thread that is not given may be any colour", "PEC and PES version 1 choose among 64 colours for all threads together, so colours are compared where nothing is missing"]
MIN_EVENTS = {"short": 4000, "surplus": 2500, "none": 900, "rows": 100000, "kept_threads": 3000, "exports": 900, "views": 9000, "unencoded_stops": 400, "numbered_missing": 1500, "numbered_kept": 300}

# formats that carry the colour of each thread as it is, or choose it from a chart thread after thread
OWN_COLOUR = {"vp3", "xxx", "jef", "csv", "json", "gcode", "tbf", "edr", "inf", "col"}
ALL_THREADS = {"tbf"}  # needle based: a thread for each of the source


def cases(tier):
    return 10500 if tier == "quick" else 120000


def rows(p):
    return [(r[0], r[1], base(r[2])) for r in p.stitches]


def make(src, specs):
    return gen.make_pattern(src, specs, {"name": "n"})


def numbered(f, s, rng, mon):
    """changes that name their thread, of which the design may not have that many"""
    s["encode"] = True
    src, nb = gen.design(rng, blocks=rng.choice((2, 2, 3, 5, 8)), per=rng.choice((1, 2, 4)), span=rng.choice((10, 60)), box=900, change="change", end="no", stops=False)
    changes = [k for k, r in enumerate(src) if base(r[2]) == COLOR_CHANGE]
    total = len(changes) + 1 + rng.randint(0, 6)
    nums = rng.sample(range(1, total), len(changes))
    for k, t in zip(changes, nums):
        src[k] = [src[k][0], src[k][1], pack(COLOR_CHANGE, t)]
    src.append([src[-1][0], src[-1][1], END])
    specs, seen = [], set()
    for d in gen.threads(rng, total, meta=rng.random() < 0.3):
        while d["color"] in seen:
            d["color"] = rng.randrange(0x1000000)
        seen.add(d["color"])
        specs.append(d)
    m = rng.choice((0, 1, total - 1, rng.randrange(total)))
    p, full = make(src, specs[:m]), make(src, specs)
    mon.note("numbered", f.ext, s, nums, m, show(src, 50))
    detail = lambda: {"format": f.ext, "options": s, "numbers": nums, "threads": m, "source": show(src, 60)}
    mon.count("numbered_missing", sum(t >= m for t in nums))
    mon.sig(f.ext, s, nums, m, src)
    try:
        want = fmts.write(f.ext, full, dict(s))
    except (ValueError, AssertionError, IndexError):
        mon.count("refused")
        return
    got = fmts.write(f.ext, p, dict(s))
    if f.read is None:
        return
    a, b = fmts.read(f.ext, got), fmts.read(f.ext, want)
    d = enc.first_diff(rows(a), rows(b), lambda u, v: u == v)
    mon.check(d is None, "numbered-rows", "%s: row %s differs from that of the design with all threads" % (f.ext, d), detail)
    if f.ext in EXACT:
        ca, cb = ([t.color & 0xFFFFFF for t in q.threadlist] for q in (a, b))
        known = {d["color"]: k for k, d in enumerate(specs)}
        mon.check(len(ca) == len(cb), "numbered-count", "%s: %d threads, expected %d" % (f.ext, len(ca), len(cb)), detail)
        for x, y in zip(ca, cb):
            if known.get(y, total) < m:
                mon.count("numbered_kept")
                mon.check(x == y, "numbered-given", "%s: a block is sewn in %06x, its change names %06x" % (f.ext, x, y), detail)


EXACT = {"vp3", "xxx", "csv", "json", "gcode", "edr", "inf", "col"}


def case(i, rng, mon):
    f = fmts.W[i % len(fmts.W)]
    s = fmts.random_settings(rng, f.ext)
    s["date"] = "20200102030405"
    if rng.random() < 0.15:
        return numbered(f, s, rng, mon)
    s["encode"] = rng.random() < 0.6
    nb = rng.choice((1, 2, 2, 3, 4, 6, 9, 12))
    change = "mixed" if s["encode"] else "change"
    src, nb = gen.design(rng, blocks=nb, per=rng.choice((1, 2, 4)), span=rng.choice((10, 60)), box=900, change=change, end="no",
                         stops=rng.random() < 0.5, long=s["encode"])
    for _ in range(rng.choice((0, 0, 0, 1, 2))):
        k = rng.randrange(len(src))
        src.insert(k + 1, [src[k][0], src[k][1], STOP])
    loose = not s["encode"] and any(base(r[2]) == STOP for r in src)  # without a thread to repeat, a stop is a change
    mon.count("unencoded_stops", loose)
    src.append([src[-1][0], src[-1][1], END])
    specs = gen.threads(rng, nb + 5, meta=rng.random() < 0.3, distinct_adjacent=True)  # readers make stops of changes between equal threads
    if rng.random() < 0.65:
        m = rng.choice((0, 0, 1, nb - 1, nb - 1, rng.randint(0, nb)))
        m = min(m, nb - 1)
    else:
        m = nb + rng.randint(1, 5)
    p, full = make(src, specs[:m]), make(src, specs[:nb])
    mon.note(f.ext, s, nb, m, show(src, 50))
    detail = lambda: {"format": f.ext, "options": s, "blocks": nb, "threads": m, "source": show(src, 60)}
    mon.count("short" if m < nb else "surplus")
    mon.count("none", m == 0)
    if nb >= 2:
        mon.sig(f.ext, s, nb, m, src)
    for view in ("get_as_stitchblock", "get_as_colorblocks"):
        u, v = list(getattr(p, view)()), list(getattr(full, view)())
        mon.count("views")
        mon.check([blk for blk, _ in u] == [blk for blk, _ in v], view, "%s gives other blocks than with a thread for each block" % view, detail)
        for (blk, t), (_, w) in zip(u, v):
            known = any(w is x for x in full.threadlist[:m])
            mon.check(t is not None and (not known or t == w), view, "%s gives a block another thread than the one given for it" % view, detail)
    try:
        want = fmts.write(f.ext, full, dict(s))
    except (ValueError, AssertionError, IndexError) as e:
        mon.count("refused")
        return
    got = fmts.write(f.ext, p, dict(s))
    if m > nb and s["encode"] and f.ext not in ALL_THREADS and f.ext != "txt":
        mon.check(got == want, "surplus", "%s: threads that nothing is sewn in change the file" % f.ext, detail)
        mon.count("same_files")
    if f.read is None:
        mon.count("exports")
        if f.ext == "txt":
            cut = lambda d: [[w for w in line.split() if not w.startswith(b"color:")] for line in d.splitlines()]
            mon.check(cut(got) == cut(want), "text", "txt: other lines than with a thread for each block", detail)
        elif f.ext == "svg":
            import re
            cut = lambda d: re.sub(rb"stroke=\"[^\"]*\"", b"", d)
            mon.check(cut(got) == cut(want), "svg", "svg: other paths than with a thread for each block", detail)
            a, b = (re.findall(rb"stroke=\"([^\"]*)\"", d) for d in (got, want))
            mon.check(len(a) == len(b), "svg-paths", "svg: %d paths, not %d" % (len(a), len(b)), detail)
        else:
            mon.check(got[:29] == want[:29], "size", "png: another size than with a thread for each block", detail)
        return
    a, b = fmts.read(f.ext, got), fmts.read(f.ext, want)
    ra, rb = ([(x, y, COLOR_CHANGE if loose and c == STOP else c) for x, y, c in rows(q)] for q in (a, b))
    mon.count("rows", len(ra))
    d = enc.first_diff(ra, rb, lambda u, v: u == v)
    mon.check(d is None, "rows", "%s: row %s is %s, with a thread for each block it is %s" % (f.ext, d, d is not None and show(ra[d:d + 1]), d is not None and show(rb[d:d + 1])), detail)
    if not b.threadlist or loose:
        return
    ca, cb = ([t.color & 0xFFFFFF for t in q.threadlist] for q in (a, b))
    if f.ext in OWN_COLOUR or f.ext == "pes" and str(s.get("version", s.get("pes version", 1)))[:1] == "6" or f.ext == "dst":
        k = min(m, nb, len(cb))
        mon.count("kept_threads", k)
        mon.check(ca[:k] == cb[:k], "given", "%s: the threads that were given are not those of the file" % f.ext, lambda: dict(detail(), read=ca, expected=cb))
    if s["encode"] and f.ext not in ALL_THREADS:
        mon.check(len(ca) == len(cb), "count", "%s: %d threads for %d blocks" % (f.ext, len(ca), len(cb)), detail)
        mon.count("thread_counts")
