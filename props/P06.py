import os

from lib import fmts, gen
from lib.cmds import *

ID = "P06"
LEVEL = "exploration"
RULE = (
    "random thread lists of 0 to 400 threads (repeated colours, every channel extreme, texts of every length and alphabet) written to EDR, COL and INF "
    "through streams and files, with and without stitches, and read back; the bytes of EDR and INF are also decoded independently; oracle: the colours "
    "and, for INF, description and chart; non-trivial = at least 2 threads; distinct by (format, threads)"
)
ASSUMPTIONS = [
    "INF writes \"Unknown\" for absent texts, and its texts contain no NUL and fit its 16 bit record; COL numbers threads as catalogue numbers",
]
MIN_EVENTS = {"threads_compared": 40000, "texts_compared": 8000}


def cases(tier):
    return 8000 if tier == "quick" else 80000


def a_text(rng):
    n = rng.choice((0, 1, 3, 8, 20, 100, 255, 256, 1000))
    a = gen.TEXT_POOLS["ascii"] + gen.TEXT_POOLS[rng.choice(("wide", "print", "ascii"))] + rng.choice(("", "\r\n\t ", "😀"))
    return "".join(rng.choice(a) for _ in range(n))


def be(b):
    return int.from_bytes(b, "big")


def decode_inf(data, mon):
    mon.check(be(data[0:4]) == 1 and be(data[4:8]) == 8, "bad-header", "inf: header %r" % data[:8])
    mon.check(be(data[8:12]) == len(data) - 12, "bad-length", "inf: length field %d, %d bytes follow" % (be(data[8:12]), len(data) - 12))
    n = be(data[12:16])
    at, out = 16, []
    for k in range(n):
        ln = be(data[at:at + 2])
        rec = data[at:at + ln]
        mon.check(len(rec) == ln and ln >= 11, "bad-record", "inf: record %d has length %d" % (k, ln))
        mon.check(be(rec[2:4]) == k and be(rec[7:9]) == k + 1, "bad-record", "inf: record %d is numbered %d, needle %d" % (k, be(rec[2:4]), be(rec[7:9])))
        parts = rec[9:].split(b"\0")
        mon.check(len(parts) == 3 and parts[2] == b"", "bad-record", "inf: texts of record %d are %r" % (k, rec[9:]))
        out.append(((rec[4] << 16) | (rec[5] << 8) | rec[6], parts[0].decode("utf8"), parts[1].decode("utf8")))
        at += ln
    mon.check(at == len(data), "bad-length", "inf: %d bytes after the last record" % (len(data) - at))
    return out


def case(i, rng, mon):
    fm = ("edr", "col", "inf")[i % 3]
    n = rng.choice((0, 1, 2, 3, 5, 10, 30, rng.randrange(60), 127, 128, 255, 256, 257, 400) if rng.random() < 0.4 else (0, 1, 2, 5, 9, 20))
    specs = []
    for c in gen.colors(rng, n, False):
        d = {"color": c}
        for k in ("description", "chart", "catalog_number", "brand", "details", "weight"):
            if rng.random() < 0.4:
                d[k] = a_text(rng)
        specs.append(d)
    rows = gen.design(rng, blocks=2)[0] if rng.random() < 0.3 else []
    p = gen.make_pattern(rows, specs, {"name": "x"} if rng.random() < 0.3 else None)
    mon.note(fm, n)
    data = fmts.write(fm, p)
    if rng.random() < 0.3:
        from pyembroidery import read, write

        fn = os.path.join(mon.scratch, "t." + fm)
        write(p, fn)
        with open(fn, "rb") as f:
            disk = f.read()
        mon.check(disk == data, "file-differs", "%s: the file differs from the stream" % fm)
        q = read(fn)
        mon.count("files_by_name")
    else:
        q = fmts.read(fm, data)
    got = [t.color & 0xFFFFFF for t in q.threadlist]
    want = [d["color"] for d in specs]
    mon.count("threads_compared", n)
    if n >= 2:
        mon.sig(fm, specs)
        mon.sample({"format": fm, "threads": specs[:2], "read": [repr(t) for t in q.threadlist[:2]]})
    mon.check(got == want, "colours-changed", "%s: colours %s, read back %s" % (fm, want[:20], got[:20]), lambda: {"want": want, "got": got})
    if fm == "edr":
        mon.check(data == b"".join(bytes((c >> 16, c >> 8 & 255, c & 255, 0)) for c in want), "bad-bytes", "edr: the bytes are not r g b 0 per thread", data)
    elif fm == "col":
        for k, t in enumerate(q.threadlist):
            mon.check(t.catalog_number == str(k), "number-changed", "col: thread %d has the number %r" % (k, t.catalog_number))
    else:
        own = decode_inf(data, mon)
        for k, (d, t, o) in enumerate(zip(specs, q.threadlist, own)):
            for a, b in (("description", o[1]), ("chart", o[2])):
                w = d.get(a, "Unknown")
                mon.count("texts_compared")
                mon.check(b == w, "text-written", "inf: %s of thread %d is %r, written %r" % (a, k, w, b))
                mon.check(getattr(t, a) == w, "text-changed", "inf: %s of thread %d is %r, read back %r" % (a, k, w, getattr(t, a)))
        mon.check([o[0] for o in own] == want, "colours-written", "inf: colours written are %s" % [o[0] for o in own])
