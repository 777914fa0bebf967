import io
import struct
import sys

from lib import core, fmts, gen, refmk, timing
from lib.cmds import *

ID = "P11"
LEVEL = "exploration"
BUILT = sorted(refmk.BUILDERS)
WRITTEN = ("json", "csv", "col", "edr", "inf", "gcode", "pes", "vp3", "jef", "dst")
RULE = (
    "files of %d built and %d written formats, damaged (bits, extreme bytes, extreme 16/32 bit fields, cuts, repeats up to 300 kB, insertions), given to the reader of another "
    "format, or replaced by noise; oracle: loop iterations (interpreter jump events), stream reads, bytes read, rows, threads and metadata stay below linear bounds, "
    "the result is a pattern of well-formed rows or an ordinary exception; besides, the CPU time of a file in which a piece is repeated up to 10 kB and 160 kB: sixteen times the bytes "
    "may take at most 60 times as long; non-trivial = the bytes differ from the valid file; distinct by bytes and reader" % (len(BUILT), len(WRITTEN)))
ASSUMPTIONS = [
    "counts of 16 bits may be believed without data behind them: the constant of the bounds covers 65535 threads",
    "HUS is a compressed format: its output is bounded by the number of stitches its header declares, which the workload keeps below one million",
    "JSON positions may be any JSON value, they are not checked; work inside C functions of the interpreter is bounded by time only, for readings of 160 kB above 0.8 seconds",
]
MIN_EVENTS = {"reads": 20000, "rows": 100000, "errors": 1000, "patterns": 5000, "timed": 150}
CPU_LIMIT = 45.0
TEXT = ("csv", "col")
TOOL = 4


class Stream(io.BytesIO):
    reads = 0
    got = 0

    def read(self, *a):
        b = io.BytesIO.read(self, *a)
        self.reads += 1
        self.got += len(b)
        if self.reads > self.most:
            raise Budget("stream reads")
        return b

    def readline(self, *a):
        b = io.BytesIO.readline(self, *a)
        self.reads += 1
        self.got += len(b)
        return b


class Budget(BaseException):
    pass


class Work:
    """counts loop iterations of the code that runs, and stops it when they exceed the budget"""

    def __init__(self, budget):
        self.n = 0
        self.budget = budget

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(TOOL, "verif")
        m.register_callback(TOOL, m.events.JUMP, self.jump)
        m.set_events(TOOL, m.events.JUMP)
        return self

    def jump(self, code, a, b):
        self.n += 1
        if self.n > self.budget:
            raise Budget("loop iterations")

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(TOOL, 0)
        m.register_callback(TOOL, m.events.JUMP, None)
        m.free_tool_id(TOOL)


def cases(tier):
    n = len(BUILT) + len(WRITTEN)
    return counted(tier) + (4 if tier == "quick" else 60) * n


def counted(tier):
    n = len(BUILT) + len(WRITTEN)
    return 500 * n if tier == "quick" else 12000 * n


EXTREME8 = (0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF, 0xF0, 0x10)
EXTREME32 = (0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE)


def damage(data, rng):
    b = bytearray(data)
    for _ in range(rng.choice((0, 1, 1, 2, 3, 8, 40))):
        n = len(b)
        if not n:
            b += bytes(rng.randrange(256) for _ in range(rng.randint(1, 30)))
            continue
        # half of the damage falls into the first bytes, where counts and offsets are
        at = rng.randrange(min(n, 0x80)) if rng.random() < 0.5 else rng.randrange(n)
        k = rng.randrange(10)
        if k == 0:
            b[at] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[at] = rng.choice(EXTREME8)
        elif k == 2:
            v = rng.choice(EXTREME32)
            b[at:at + 4] = struct.pack(rng.choice("<>") + "I", v)
        elif k == 3:
            b[at:at + 2] = struct.pack(rng.choice("<>") + "H", rng.choice(EXTREME32) & 0xFFFF)
        elif k == 4:
            del b[at:]
        elif k == 5:
            del b[at:at + rng.randint(1, 9)]
        elif k == 6:
            b[at:at] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 9)))
        elif k == 7:
            b[at:at + rng.randint(1, 60)] = bytes([rng.choice(EXTREME8)]) * rng.randint(1, 60)
        elif k == 8:
            piece = bytes(b[at:at + rng.randint(1, 200)])
            b[at:at] = piece * rng.choice((1, 2, 10, 50))
        else:
            b[at] = rng.randrange(256)
    return bytes(b)


def written(ext, rng):
    d, nb = gen.design(rng, span=60, mode="int")
    p = gen.make_pattern(d, gen.threads(rng, nb, meta=True), {"name": "x", "author": "me"})
    data = fmts.write(ext, p, fmts.random_settings(rng, ext))
    return data.encode("utf8") if isinstance(data, str) else data


def reader_of(ext):
    import pyembroidery as pe

    for t in pe.supported_formats():
        if (ext == t["extension"] or ext in t.get("extensions", ())) and "reader" in t:
            return t["reader"]


def timed(ext, data, settings, rng, mon):
    """the time of reading a file in which one piece is repeated"""
    from pyembroidery import EmbPattern

    if ext == "hus" or not data:
        return
    size = rng.choice((1, 2, 3, 3, 4, 5, 6, 8, 9, 12, 18, 24, 60, 500))
    a = rng.randrange(max(1, min(len(data), rng.choice((0x300, 0x1000, 1 << 20)))))
    if rng.random() < 0.5:
        a = len(data) * 3 // 4 + rng.randrange(len(data) // 4 + 1)
    piece = data[a:a + size] or b"\1\2\3"
    short, long = (data[:a] + piece * (total // len(piece)) + data[a:] for total in (10000, 160000))
    reader = reader_of(ext)

    def make(d):
        return lambda: (io.StringIO(d.decode("latin1"), newline="") if ext in TEXT else io.BytesIO(d), EmbPattern())

    mon.note(ext, "timed", piece.hex(), a, data[:2000].hex())
    small, big, ok = timing.compare(make(short), make(long), lambda f, p: reader.read(f, p, settings), 0.8, ratio=60)
    if big * 1e6 < 8 * len(long):  # a short file that is refused at once says nothing
        ok = True
    mon.count("timed")
    mon.count("timed_ms", int(big * 1000))
    mon.sig("timed", ext, piece, a)
    mon.check(ok, "time:" + ext, "reading %d bytes takes %.2f s, %d bytes %.4f s" % (len(long), big, len(short), small), lambda: {"reader": ext, "piece": piece.hex(), "at": a, "start": data[:300].hex()})


def case(i, rng, mon):
    from pyembroidery import EmbPattern

    n = len(BUILT) + len(WRITTEN)
    k = i % n
    if k < len(BUILT):
        f = refmk.make(BUILT[k], rng)
        ext, data, settings = f.ext, f.data, f.settings
    else:
        ext, settings = WRITTEN[k - len(BUILT)], None
        data = written(ext, rng)
    if i >= counted(mon.tier):
        return timed(ext, data, settings, rng, mon)
    whole = data
    r = rng.random()
    if r < 0.72:
        data = damage(data, rng)
    elif r < 0.82:  # the reader of another format
        other = rng.choice(BUILT + list(WRITTEN))
        ext = refmk.make(other, rng).ext if other in refmk.BUILDERS else other
        if rng.random() < 0.5:
            data = damage(data, rng)
    elif r < 0.92:
        m = rng.choice((0, 1, 2, 3, 10, 100, 1000, 5000))
        kind = rng.randrange(4)
        head = data[: rng.choice((0, 0, 4, 8, 16, 0x100, 0x200))]
        data = head + (bytes(rng.randrange(256) for _ in range(m)) if kind == 0 else bytes([rng.choice(EXTREME8)]) * m if kind == 1 else
                       bytes(rng.choice(EXTREME8) for _ in range(m)) if kind == 2 else bytes(rng.choice((0x80, rng.randrange(256))) for _ in range(m)))
    elif data:  # long: a piece of the file many times over
        a = rng.randrange(len(data))
        piece = data[a:a + rng.choice((1, 2, 3, 4, 6, 24, 500))]
        total = rng.choice((20000, 20000, 100000)) if i % 7 else rng.choice((100000, 300000))
        data = data[:a] + piece * (total // len(piece)) + data[a:]
    declared = 0
    if ext == "hus" and len(data) >= 8:
        declared = struct.unpack_from("<I", data, 4)[0]
        if declared > 1000000:
            declared = rng.choice((1000, 1000000)) if i % 5 == 0 else 3000
            data = data[:4] + struct.pack("<I", declared) + data[8:]
    size = len(data)
    reader = reader_of(ext)
    p = EmbPattern()
    budget = 600000 + (4000 if ext == "hus" else 120) * size + 40 * declared
    if ext in TEXT:
        src = io.StringIO(data.decode("latin1"), newline="")
    else:
        src = Stream(data)
        src.most = 200000 + 12 * size
    mon.note(ext, size, data[:3000].hex())
    what = lambda: {"reader": ext, "size": size, "start": data[:300].hex()}
    work = Work(budget)
    over = None
    try:
        with work:
            reader.read(src, p, settings)
        mon.count("patterns")
        ok = True
    except Budget as e:
        over = str(e)
    except core.Runaway:
        raise
    except (MemoryError, SystemError) as e:
        mon.fail("no-ordinary-error", "reading damaged bytes ends in %r" % e, what())
    except Exception as e:
        mon.count("errors")
        mon.count("error:" + type(e).__name__)
        ok = False
    mon.check(over is None, "work:" + ext, "the %s reader needs more %s than a linear bound allows" % (ext, over), what)
    mon.count("reads", getattr(src, "reads", 0))
    mon.count("loop_iterations", work.n)
    mon.count("rows", len(p.stitches))
    mon.check(getattr(src, "got", 0) <= 16 * size + 100000, "bytes-read:" + ext, "the bytes read are bounded by those of the input", what)
    mon.check(len(p.stitches) <= 16 + 4 * size + 3 * declared, "rows:" + ext, "the rows are bounded by the size of the input", lambda: (len(p.stitches), what()))
    mon.check(len(p.threadlist) <= 66000 + size, "threads:" + ext, "the threads are bounded by the size of the input", lambda: (len(p.threadlist), what()))
    total = sum(len(repr(k)) + (len(v) if isinstance(v, (str, bytes, bytearray)) else sum(len(w) for w in v if isinstance(w, (bytes, bytearray))) if isinstance(v, tuple) else 1)
                for k, v in p.extras.items())
    mon.check(total <= 3000000 + 8 * size, "metadata:" + ext, "the metadata are bounded by the size of the input", lambda: (total, what()))
    if ok and ext != "json":
        for r in p.stitches:
            if not (isinstance(r, list) and len(r) == 3 and isinstance(r[0], (int, float)) and isinstance(r[1], (int, float)) and isinstance(r[2], int)):
                mon.fail("row-shape:" + ext, "rows are [x, y, command]", (repr(r), what()))
    elif ok:
        for r in p.stitches:
            mon.check(isinstance(r, list) and len(r) == 3 and isinstance(r[2], int), "row-shape:json", "rows are [x, y, command]", lambda: (repr(r), what()))
    if data != whole:
        mon.sig(ext, data)
        mon.sample({"reader": ext, "size": size, "loop_iterations": work.n, "rows": len(p.stitches), "gave": "pattern" if ok else "error"})
