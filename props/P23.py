import os

from lib import gen
from lib.cmds import *

ID = "P23"
LEVEL = "exploration"
RULE = (
    "random histories of 1..60 editing calls on a pattern next to a plain list model; rows, threads, metadata, lengths and item access "
    "compared after every call; non-trivial = at least 5 calls; distinct by call sequence"
)
ASSUMPTIONS = ["relative insertion positions lie within the pattern; insertion at 0 counts from the origin"]
MIN_EVENTS = {"calls": 20000}


def cases(tier):
    return 60000 if tier == "quick" else 300000


class Point:
    def __init__(self, x, y, command):
        self.x, self.y, self.command = x, y, command


class Model:
    def __init__(self):
        self.rows, self.threads, self.meta, self.x, self.y = [], [], {}, 0, 0

    def add(self, c, x, y):
        self.rows.append([x, y, c])
        self.x, self.y = x, y

    def rel(self, c, dx, dy):
        self.add(c, self.x + dx, self.y + dy)

    def ins_rel(self, pos, c, dx, dy):
        if pos < 0:
            pos += len(self.rows)
        if pos == 0:
            self.rows.insert(0, [dx, dy, c])
        elif pos == len(self.rows):
            self.rel(c, dx, dy)
        else:
            self.rows.insert(pos, [self.rows[pos - 1][0] + dx, self.rows[pos - 1][1] + dy, c])


SIMPLE = {"move": JUMP, "stitch": STITCH, "stop": STOP, "trim": TRIM, "color_change": COLOR_CHANGE, "sequin_eject": SEQUIN_EJECT,
          "sequin_mode": SEQUIN_MODE, "end": END}
POOL = list(SIMPLE) * 2 + ["needle_change", "move_abs", "stitch_abs", "add_stitch_relative", "add_stitch_absolute", "insert", "prepend",
        "command", "insert_rel", "setitem", "delitem", "thread", "metadata", "block", "iadd", "iadd_thread", "clear", "stitchblock", "translate", "append_translation", "refuse"]


def state(p):
    return [list(r) for r in p.stitches], [t.color for t in p.threadlist], dict(p.extras)


def case(i, rng, mon):
    from pyembroidery import EmbPattern, EmbThread

    p, m = EmbPattern(), Model()
    log = []
    num = lambda: rng.choice((0, 0, rng.randint(-200, 200), rng.randint(-5, 5), rng.randint(-50, 50) / 2))
    lastthread = None
    for _ in range(rng.choice((2, 6, 15, 60))):
        op = rng.choice(POOL)
        if op == "clear" and rng.random() < 0.8:
            continue
        n = len(m.rows)
        dx, dy = num(), num()
        pos = None
        if n and rng.random() < 0.25:
            pos = rng.randint(-n, n)
            if pos == -n:
                pos = 0
        arg = None
        if op in SIMPLE or op == "needle_change":
            f = getattr(p, op)
            if op == "needle_change":
                arg = rng.randint(0, 12)
                c = pack(NEEDLE_SET, None, arg)
                call = lambda *a, **k: f(arg, *a, **k)
            else:
                c, call = SIMPLE[op], f
            how = rng.randrange(4)
            if how == 0:
                dx = dy = 0
                call(position=pos) if pos is not None else call()
            elif how == 1:
                call(dx, dy, pos) if pos is not None else call(dx, dy)
            elif how == 2:
                call(dx=dx, dy=dy, position=pos)
            else:
                dy = 0
                call(dx) if pos is None else call(dx, position=pos)
            m.rel(c, dx, dy) if pos is None else m.ins_rel(pos, c, dx, dy)
        elif op in ("move_abs", "stitch_abs"):
            c = JUMP if op == "move_abs" else STITCH
            if pos is None:
                getattr(p, op)(dx, dy)
                m.add(c, dx, dy)
            else:
                getattr(p, op)(dx, dy, pos)
                m.rows.insert(pos, [dx, dy, c])
        elif op in ("add_stitch_relative", "add_stitch_absolute"):
            c = rng.choice(SOUPC)
            getattr(p, op)(c, dx, dy)
            m.rel(c, dx, dy) if op[-1] == "e" and "relative" in op else m.add(c, dx, dy)
        elif op == "insert_rel":
            if not n:
                continue
            pos = rng.randint(-n + 1, n)
            c = rng.choice(SOUPC)
            p.insert_stitch_relative(pos, c, dx, dy)
            m.ins_rel(pos, c, dx, dy)
        elif op == "insert":
            pos = rng.randint(-n, n)
            c = rng.choice(SOUPC)
            p.insert(pos, c, dx, dy)
            m.rows.insert(pos, [dx, dy, c])
        elif op == "prepend":
            c = rng.choice(SOUPC)
            p.prepend_command(c, dx, dy)
            m.rows.insert(0, [dx, dy, c])
        elif op == "command":
            c = rng.choice(SOUPC)
            if rng.random() < 0.5:
                p.add_command(c, dx, dy)
                m.rows.append([dx, dy, c])
            else:
                p += c
                m.rows.append([0, 0, c])
        elif op == "setitem":
            if rng.random() < 0.4 or not n:
                k = rng.choice(("name", "author", "x y"))
                v = gen.text(rng)
                p[k] = v
                m.meta[k] = v
                mon.check(p[k] == v, "item", "metadata item %r reads as %r" % (k, p[k]))
            else:
                pos = rng.randint(-n, n - 1)
                row = [dx, dy, rng.choice(SOUPC)]
                p[pos] = list(row)
                m.rows[pos] = list(row)
        elif op == "delitem":
            if not n or rng.random() < 0.5:
                continue
            pos = rng.randint(0, n - 1)
            del p.stitches[pos]
            del m.rows[pos]
        elif op == "thread":
            c = rng.randrange(1 << 24)
            p.add_thread(rng.choice((EmbThread(c), c, "#%06x" % c, {"color": c})))
            m.threads.append(c)
        elif op == "metadata":
            k, v = rng.choice(("name", "copyright", "author")), rng.choice((gen.text(rng, "mix"), 5, [1, 2]))
            p.metadata(k, v) if rng.random() < 0.6 else p.__iadd__((k, v))
            m.meta[k] = v
            mon.check(p.get_metadata(k) == v, "metadata", "metadata %r reads as %r, was set to %r" % (k, p.get_metadata(k), v))
            mon.check(p.get_metadata("absent", 7) == 7 and p.get_metadata("absent") is None, "metadata", "default of absent metadata")
        elif op in ("block", "iadd"):
            pts = [(num(), num()) for _ in range(rng.choice((0, 1, 2, 5)))]
            form = rng.choice(("pairs", "lists", "triples", "complex", "flat", "tuple"))
            kinds = [STITCH] * len(pts)
            if form == "triples":
                kinds = [rng.choice((STITCH, JUMP, TRIM)) for _ in pts]
                b = [(x, y, k) for (x, y), k in zip(pts, kinds)]
            elif form == "complex":
                b = [complex(x, y) for x, y in pts]
            elif form == "flat":
                b = [v for q in pts for v in q]
            else:
                b = [list(q) if form == "lists" else q for q in pts]
            if form == "tuple":
                b = tuple(b)
            if op == "iadd":
                p += b
            else:
                t = rng.choice((None, rng.randrange(1 << 24)))
                if t is not None and rng.random() < 0.1:
                    b, pts, kinds = None, [], []
                p.add_block(b, "#%06x" % t if t is not None else None)
                if t is not None:
                    m.threads.append(t)
            for (x, y), k in zip(pts, kinds):
                m.add(k, x, y)
            if op == "block" and pts:
                m.rows.append([0, 0, COLOR_BREAK])
        elif op == "iadd_thread":
            c = rng.randrange(1 << 24)
            p += rng.choice((EmbThread(c), "#%06x" % c))
            m.threads.append(c)
            if any(base(r[2]) in SEWING for r in m.rows):
                m.rel(COLOR_CHANGE, 0, 0)
        elif op == "clear":
            p.clear()
            m = Model()
        elif op == "stitchblock":
            same = bool(lastthread is not None and p.threadlist and p.threadlist[-1] is lastthread and rng.random() < 0.5)
            t = lastthread if same else EmbThread(rng.randrange(1 << 24))
            lastthread = t
            rows = [[num(), num(), rng.choice((STITCH, STITCH, JUMP))] for _ in range(rng.choice((1, 3)))]
            p.add_stitchblock(([Point(*r) for r in rows] if rng.random() < 0.4 else rows, t))
            m.rel(SEQUENCE_BREAK if same else COLOR_BREAK, 0, 0)
            if not same:
                m.threads.append(t.color)
            for r in rows:
                m.add(r[2], r[0], r[1])
            mon.count("stitchblocks")
        elif op == "append_translation":
            # a command for the encoder; the pen stays
            p.append_translation(dx, dy)
            m.rows.append([dx, dy, MATRIX_TRANSLATE])
        elif op == "refuse":
            # what is no stitch, thread, text or pattern is refused and changes nothing
            bad = rng.choice((None, 1.5, {"a": 1}, object()))
            try:
                p += bad
            except (ValueError, TypeError):
                pass
            else:
                mon.fail("refuse", "adding %r is not refused" % (bad,), log)
        elif op == "translate":
            # moves the rows; the pen stays
            p.translate(dx, dy)
            for r in m.rows:
                r[0] += dx
                r[1] += dy
        log.append((op, pos, dx, dy, arg))
        mon.count("calls")
        want = ([list(r) for r in m.rows], m.threads, m.meta)
        got = state(p)
        if got != want:
            k = next((j for j, (a, b) in enumerate(zip(got[0], want[0])) if a != b), min(len(got[0]), len(want[0])))
            which = "rows" if got[0] != want[0] else ("threads" if got[1] != want[1] else "metadata")
            mon.fail("edit:" + op, "after %s%r the %s differ; row %d is %r, expected %r" % (
                op, (pos, dx, dy, arg), which, k, got[0][k : k + 1], want[0][k : k + 1]), {"calls": log, "got": got, "expected": want})
        mon.check(len(p) == len(m.rows) == p.count_stitches(), "length", "len() is %d for %d rows" % (len(p), len(m.rows)))
        if m.rows:
            j = rng.randint(-len(m.rows), len(m.rows) - 1)
            mon.check(list(p[j]) == m.rows[j], "item", "item %d reads as %r, expected %r" % (j, p[j], m.rows[j]))
            mon.check([list(r) for r in p[1:4]] == m.rows[1:4], "slice", "slice of rows")
    if len(log) >= 5:
        mon.sig([(o[0], o[1] is None) for o in log])
    mon.sample({"calls": log[:8]})


SOUPC = [STITCH, JUMP, TRIM, STOP, COLOR_CHANGE, COLOR_BREAK, SEQUENCE_BREAK, SEW_TO, NEEDLE_AT, TIE_ON, SLOW, FAST]
