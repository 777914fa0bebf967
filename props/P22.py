from lib import fmts, gen, rt
from lib.cmds import *

ID = "P22"
LEVEL = "exploration"
FORMATS = ("dst", "pec", "pes", "exp", "vp3", "jef", "u01", "xxx", "tbf", "gcode", "csv", "json")
RULE = (
    "random designs written to one of %d formats and read, then the pattern read is written (same options) and read again, up to five generations; oracle: needle points, colour, stop and needle events "
    "with their place, cuts between needle points, thread colours and texts of every generation equal those of the first reading, all rows from the second generation on equal those of the second; non-trivial = at least one event besides stitches; "
    "distinct by design and format" % len(FORMATS))
ASSUMPTIONS = [
    "cuts count once between two needle points (writers may repeat them); positions of moves that sew nothing are free",
    "every colour block sews, there is a thread for each; formats that turn stops into colour changes make up threads for them, these are not compared",
    "TBF reads a move of length zero as a cut: at a stop (where the thread is not sewn on) cuts are not compared",
    "JEF files read without the trims option hold no cuts, they are deduced from the length of moves (P02 decides where): cuts and moves of these are not compared",
    "VP3 designs in whole units (fractional ones are truncated to whole steps within a block)",
]
MIN_EVENTS = {"generations": 20000, "settled": 8000, "needle_points": 250000, "events": 25000}


def cases(tier):
    return 24000 if tier == "quick" else 800000


def view(p, ext, settings):
    """needle points and events, cuts collapsed"""
    out = []
    deduced = ext == "jef" and settings is None
    n = 0
    cut = stopped = False
    for r in p.stitches:
        c = base(r[2])
        if c in (STITCH, SEQUIN_EJECT):
            if cut and n and not (stopped and ext == "tbf") and not deduced:
                out.append(("TRIM", n))
            cut = stopped = False
            n += 1
            out.append((c, r[0], r[1]))
        elif c == TRIM:
            cut = True
        elif c == STOP and ext == "tbf":
            stopped = True
            out.append((name(r[2]), n))
        elif c in (COLOR_CHANGE, STOP, NEEDLE_SET, SLOW, FAST):
            out.append((name(r[2]), n))
        elif c == END:
            break
    return out


def threads(p, ext):
    return [(t.hex_color(), t.description, t.catalog_number, t.brand) for t in p.threadlist]


def case(i, rng, mon):
    ext = FORMATS[i % len(FORMATS)]
    d, nb = gen.design(rng, span=rng.choice((10, 40, 100, 300)), mode=rng.choice(("int", "int", "half", "any")) if ext not in ("csv", "json", "vp3") else "int", box=4000,
                       stops=rng.random() < 0.5, needles=ext in ("u01", "tbf") and rng.random() < 0.3, change="needle" if ext in ("u01", "tbf") and rng.random() < 0.5 else "mixed", needle_max=14)
    ts = gen.threads(rng, nb, meta=rng.random() < 0.6)
    p = gen.make_pattern(d, ts, {"name": gen.text(rng)})
    s = fmts.random_settings(rng, ext)
    if ext in ("u01", "tbf") and rng.random() < 0.5:
        s["needle_count"] = rng.choice((2, 9, 14, 15))
    if ext == "csv":
        s.pop("version", None)
    mon.note(ext, s, show(d, 60))
    rs = {"trims": True} if ext == "jef" and s.get("trims") and rng.random() < 0.5 else None
    if rs and "trim_at" in s:
        rs["trim_at"] = s["trim_at"]
    first = None
    q = p
    second = None
    for g in range(rng.choice((2, 2, 3, 5))):
        q = fmts.read(ext, fmts.write(ext, q, s), rs)
        v, t = view(q, ext, rs), threads(q, ext)
        if first is None:
            first, t0 = v, t
            mon.count("needle_points", sum(1 for e in v if len(e) == 3))
            mon.count("events", sum(1 for e in v if len(e) == 2))
            rows0 = show(q.stitches, 60)
            continue
        mon.count("generations")
        rows = [tuple(r) for r in q.stitches]
        if ext == "jef" and rs is None:
            rows = [r for r in rows if base(r[2]) not in (JUMP, TRIM)]
        if second is not None:  # what is settled after a rewrite stays to the last row
            mon.count("settled")
            mon.check(rows == second, "settled:" + ext, "%s generation %d has the rows of the second" % (ext, g + 1),
                      lambda: {"settings": s, "second": show(second, 80), "now": show(rows, 80)})
        else:
            second = rows
        k = next((j for j, (a, b) in enumerate(zip(v, first)) if a != b), None)
        if k is None and len(v) != len(first):
            k = min(len(v), len(first))
        mon.check(k is None, "rows:" + ext, "%s generation %d has the stitches and events of the first" % (ext, g + 1),
                  lambda: {"settings": s, "first": first[max(0, k - 5):k + 5], "now": v[max(0, k - 5):k + 5], "rows": rows0, "rows now": show(q.stitches, 60)})
        mon.check(t[:len(t0)] == t0, "threads:" + ext, "%s generation %d has the threads of the first" % (ext, g + 1), lambda: {"settings": s, "first": t0, "now": t, "rows": rows0})
    if any(len(e) == 2 for e in first):
        mon.sig(ext, first)
        mon.sample({"format": ext, "settings": s, "events": [e for e in first if len(e) == 2][:6], "needle points": sum(1 for e in first if len(e) == 3)})
