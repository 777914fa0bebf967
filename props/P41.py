"""The scheduler: one baton for all threads of a case. Whoever holds it runs; at a line of the library chosen by the seed it hands the baton on and waits. So only one thread runs at a time, at
line granularity, and a case replays exactly."""
import hashlib
import random
import sys
import threading

from lib import core, fmts, gen, refmk
from lib.cmds import *
from props import P21, P40

ID = "P41"
LEVEL = "exploration"
RULE = (
    "two to four operations, most on objects of their own, (writes in every format, reads of %d file variants and of written formats, encodings, post-processing, thread look-ups, decompression, matrix work, copies and comparisons; often two of the "
    "same kind, or several that only look at one and the same pattern) run in threads of their own under a seeded scheduler that hands over at lines of the library, in runs of 1 to 400 lines; and their iterators (blocks, formats) advanced in turns; oracle: every "
    "operation gives the bytes, rows, threads or answers it gives alone; non-trivial = at least 10 handovers; distinct by operations and the sequence of handovers" % len(P40.BUILT))
ASSUMPTIONS = ["one thread runs at a time and is interrupted between lines, not within one (the interpreter's own lock gives no less)", "random threads (JPX, missing threads) are left out"]
MIN_EVENTS = {"schedules": 3000, "handovers": 2000000, "operations": 7000, "shared_patterns": 400}
TOOL = 4
CPU_LIMIT = 120.0


def cases(tier):
    return 4000 if tier == "quick" else 40000


class Baton:
    def __init__(self, n, rng, stretch):
        self.locks = [threading.Semaphore(0) for _ in range(n)]
        self.alive = set(range(n))
        self.rng, self.stretch = rng, stretch
        self.index = {}
        self.left = 0
        self.trace = []
        self.lines = 0

    def next_stretch(self):
        self.left = self.rng.randint(1, self.stretch)

    def pick(self, me):
        others = sorted(self.alive - {me})
        return self.rng.choice(others) if others else None

    def line(self, code, number):
        if core.REPO not in code.co_filename:
            return sys.monitoring.DISABLE
        me = self.index.get(threading.get_ident())
        if me is None:
            return
        self.lines += 1
        self.left -= 1
        if self.left > 0:
            return
        self.next_stretch()
        other = self.pick(me)
        if other is not None:
            self.trace.append((other, self.lines))
            self.locks[other].release()
            self.locks[me].acquire()

    def run(self, jobs):
        out = [None] * len(jobs)

        def body(k):
            self.locks[k].acquire()
            self.index[threading.get_ident()] = k
            try:
                out[k] = jobs[k]()
            except BaseException as e:
                out[k] = "refused " + type(e).__name__ + " " + str(e)[:80]
            finally:
                self.index.pop(threading.get_ident(), None)
                self.alive.discard(k)
                other = self.pick(k)
                if other is not None:
                    self.locks[other].release()

        m = sys.monitoring
        m.use_tool_id(TOOL, "verif")
        m.register_callback(TOOL, m.events.LINE, self.line)
        m.set_events(TOOL, m.events.LINE)
        m.restart_events()
        try:
            ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(jobs))]
            for t in ts:
                t.start()
            self.next_stretch()
            self.locks[self.rng.randrange(len(jobs))].release()
            for t in ts:
                t.join()
        finally:
            m.set_events(TOOL, 0)
            m.register_callback(TOOL, m.events.LINE, None)
            m.free_tool_id(TOOL)
        return out


def digest(v):
    if isinstance(v, (bytes, bytearray)):
        b = bytes(v)
    else:
        b = repr(v).encode("utf8", "backslashreplace")
    return hashlib.blake2b(b, digest_size=10).hexdigest()


def pattern(rng, span=None):
    d, nb = gen.design(rng, blocks=rng.randint(1, 5), per=rng.choice((3, 5, 10)), span=span or rng.choice((10, 60, 200)), box=2000, sequins=rng.random() < 0.2, speeds=rng.random() < 0.2)
    ts = gen.threads(rng, nb + 40, meta=True)
    if rng.random() < 0.5:  # neighbours next to the same chart entry
        near = rng.sample((0xFFFFFF, 0x000000, 0xFF0000, 0x0A55A3), rng.choice((1, 2)))  # also those of other patterns
        for t in ts:
            t["color"] = rng.choice(near) ^ rng.choice((0, 1, 0x100, 0x20000))
    return gen.make_pattern(d, ts, {"name": gen.text(rng), "author": gen.text(rng)})


def op_write(rng, ext=None):
    ext = ext or rng.choice([f.ext for f in fmts.W if f.ext != "png" or rng.random() < 0.1])
    p = pattern(rng, 6 if ext == "png" else None) if ext != "png" else gen.make_pattern([[0, 0, STITCH], [9, 4, STITCH], [3, 12, COLOR_CHANGE], [5, 5, STITCH], [0, 0, END]], gen.threads(rng, 4))
    s = fmts.random_settings(rng, ext)
    if rng.random() < 0.3:
        s.update(tie_on=True, tie_off=True)
    return "write " + ext, lambda: digest(fmts.write(ext, p.copy(), dict(s)))


def op_read(rng, k=None):
    while k is None or k < len(P40.BUILT) and P40.BUILT[k] == "jpx":
        k = rng.randrange(P40.JOBS)
    ext, data, s, hurt = P40.job(str(rng.random()), k)
    return "read " + ext, lambda: plain_read(ext, data, dict(s))


def plain_read(ext, data, s):
    import io
    from pyembroidery import EmbPattern

    reader = P40.reader_of(ext)
    text = getattr(reader, "READ_FILE_IN_TEXT_MODE", False)
    p = EmbPattern.read_embroidery(reader, io.TextIOWrapper(io.BytesIO(data), encoding="utf-8", newline="") if text else io.BytesIO(data), s)
    return P40.content(p)


def op_encode(rng):
    p = gen.make_pattern(gen.soup(rng, rng.choice((10, 40)), span=60, box=400), gen.threads(rng, 60, meta=True))
    s = {"max_stitch": rng.choice((20, 127)), "max_jump": rng.choice((20, 127)), "full_jump": rng.random() < 0.5, "tie_on": rng.random() < 0.5, "explicit_trim": rng.random() < 0.5,
         "needle_count": rng.choice((3, 15)), "scale": rng.choice((1, 2)), "rotate": rng.choice((0, 30))}
    return "encode", lambda: P40.content(p.get_normalized_pattern(dict(s)))


def op_post(rng):
    from pyembroidery import EmbMatrix

    p = pattern(rng)
    n = rng.randint(2, 5)

    def go():
        q = p.copy()
        q.interpolate_trims(n, 5.0)
        q.transform(EmbMatrix(EmbMatrix.get_rotate(30)))
        r = q.get_stable_pattern()
        m = r.get_pattern_merge_jumps()
        r = q.get_pattern_interpolate_trim(n)
        return P40.content(q), P40.content(m), P40.content(r), q.bounds(), q == p, p == p.copy()

    return "post", go


def op_threads(rng):
    import importlib
    from pyembroidery import EmbThread

    colors = [rng.randrange(1 << 24) for _ in range(rng.choice((1, 2, 3)))]
    names = rng.sample(("Hus", "Jef", "Pec", "Sew", "Shv"), 2)

    def go():
        out = []
        for m in names:
            chart = importlib.import_module("pyembroidery.EmbThread" + m).get_thread_set()
            ts = [EmbThread(c) for c in colors]
            if m == names[0]:
                out.append([t.find_nearest_color_index(chart) for t in ts])
                continue
            from pyembroidery.EmbThread import build_unique_palette

            out.append(build_unique_palette(chart, ts))
        out.append([EmbThread(x).color for x in ("red", "#123456", "rgb(1, 2, 3)", "hsl(10, 50%, 50%)")])
        return out

    return "threads " + "/".join(names), go


def op_expand(rng):
    from pyembroidery.EmbCompress import compress, expand

    from lib import hufc

    data = bytes(rng.choice((0, 1, 5, rng.randrange(256))) for _ in range(rng.choice((4, 12, 40))))
    packed = hufc.pack(data, rng, end=False)[0]

    def go():
        a = expand(compress(data), len(data))
        b = expand(packed, len(data))
        return digest(bytes(bytearray(a))), digest(bytes(bytearray(b)))

    return "expand", go


def op_matrix(rng):
    from pyembroidery import EmbMatrix

    v = [rng.uniform(-5, 5) for _ in range(8)]

    def go():
        m = EmbMatrix()
        m.post_rotate(v[0] * 50, v[1], v[2])
        m.post_scale(v[3], v[4], v[5], v[6])
        m.post_translate(v[7], v[0])
        n = EmbMatrix(m.get_matrix())
        n.inverse()
        return m.get_matrix(), n.get_matrix(), m.point_in_matrix_space(v[1], v[2]), str(m @ n)

    return "matrix", go


def op_blocks(rng):
    p = pattern(rng)

    def go():
        return ([(len(b), P40.plain(t)) for b, t in p.get_as_colorblocks()], [list(map(tuple, b)) for b in p.get_as_command_blocks()], [(list(map(tuple, b)), P40.plain(t)) for b, t in p.get_as_stitchblock()],
                p.count_stitch_commands(STITCH), p.count_threads(), [P40.plain(t) for t in p.get_unique_threadlist()] and len(p.get_unique_threadlist()))

    return "blocks", go


def shared(rng, n, mon):
    """operations that only look at one and the same pattern"""
    p = pattern(rng)
    mon.count("shared_patterns")
    out = []
    for _ in range(n):
        ext = rng.choice([f.ext for f in fmts.W if f.ext != "png"])
        k = rng.randrange(6)
        if k < 3:
            s = fmts.random_settings(rng, ext)
            out.append(("write " + ext, lambda ext=ext, s=s: digest(fmts.write(ext, p, dict(s)))))
        elif k == 3:
            out.append(("encode", lambda: P40.content(p.get_normalized_pattern({"max_stitch": 20, "max_jump": 20}))))
        elif k == 4:
            out.append(("copy", lambda: (P40.content(p.copy()), p == p.copy(), p.bounds())))
        else:
            out.append(("blocks", lambda: ([(len(b), P40.plain(t)) for b, t in p.get_as_colorblocks()], P40.content(p.get_stable_pattern()))))
    return out


OPS = (op_write, op_write, op_write, op_read, op_read, op_encode, op_post, op_threads, op_matrix, op_blocks, op_expand)


def case(i, rng, mon):
    if i % 10 == 9:
        return turns(rng, mon)
    n = rng.choice((2, 2, 2, 3, 4))
    kinds = [rng.choice(OPS)] * n if rng.random() < 0.5 else [rng.choice(OPS) for _ in range(n)]
    if kinds[0] is kinds[1] and rng.random() < 0.6:  # all of one format
        if kinds[0] is op_write:
            ext = rng.choice([f.ext for f in fmts.W if f.ext != "png"] + ["jef", "pec", "pes"])  # once more those with charts
            kinds = [lambda r: op_write(r, ext)] * n
        elif kinds[0] is op_read:
            which = rng.randrange(P40.JOBS)
            kinds = [lambda r: op_read(r, which)] * n
    made = [k(rng) for k in kinds] if rng.random() < 0.8 else shared(rng, n, mon)
    names = [m[0] for m in made]
    alone = []
    for _, go in made:
        try:
            alone.append(go())
        except Exception as e:
            alone.append("refused " + type(e).__name__ + " " + str(e)[:80])
            mon.count("refused")
    for _ in range(1):
        b = Baton(n, random.Random(rng.random()), rng.choice((1, 3, 10, 20, 40, 100, 200, 400)))
        got = b.run([m[1] for m in made])
        mon.count("schedules")
        mon.count("operations", n)
        mon.count("handovers", len(b.trace))
        mon.count("lines", b.lines)
        for k in range(n):
            mon.check(got[k] == alone[k], "threads:" + names[k].split()[0], "%s gives another result when %s run in other threads" % (names[k], [x for j, x in enumerate(names) if j != k]),
                      lambda: {"alone": str(alone[k])[:600], "interleaved": str(got[k])[:600], "handovers": b.trace[:40]})
        if len(b.trace) >= 10:
            mon.sig(names, alone, b.trace)
            mon.sample({"operations": names, "handovers": len(b.trace), "lines": b.lines, "first": b.trace[:6]})


def turns(rng, mon):
    """iterators of several patterns advanced in turns, with other work between"""
    import pyembroidery as pe

    made = []
    for _ in range(rng.randint(2, 4)):
        p = pattern(rng)
        kind = rng.choice(("get_as_stitchblock", "get_as_command_blocks", "get_as_colorblocks", "get_unique_threadlist", "formats", "get_match_commands", "get_coord_list"))
        if kind == "formats":
            made.append((kind, pe.supported_formats))
        elif kind == "get_match_commands":
            made.append((kind, lambda p=p: p.get_match_commands(STITCH)))
        elif hasattr(p, kind):
            made.append((kind, lambda p=p, kind=kind: iter(getattr(p, kind)())))
    alone = [[repr(P40.plain(v)) for v in go()] for _, go in made]
    its = [iter(go()) for _, go in made]
    got = [[] for _ in made]
    live = list(range(len(made)))
    trace = []
    while live:
        k = rng.choice(live)
        trace.append(k)
        try:
            got[k].append(repr(P40.plain(next(its[k]))))
        except StopIteration:
            live.remove(k)
        if rng.random() < 0.2:
            fmts.write(rng.choice(("dst", "pec", "vp3", "csv")), pattern(rng), {})
    mon.count("turns", len(trace))
    for k, (kind, _) in enumerate(made):
        mon.check(got[k] == alone[k], "turns:" + kind, "%s gives other elements when advanced in turns with other work" % kind, lambda: (alone[k][:20], got[k][:20]))
    if len(trace) >= 10:
        mon.sig([m[0] for m in made], alone, trace)
