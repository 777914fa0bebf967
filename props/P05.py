import csv
import io
import math
import os
import subprocess
import sys

from lib import core, fmts, gen
from lib.cmds import *

ID = "P05"
LEVEL = "exploration"
RULE = (
    "random patterns of every command with every combination of thread, needle and order parameters, positions of every magnitude and precision, threads "
    "with hostile texts in every detail, and text metadata, saved to JSON and to the three CSV versions through streams and files, and loaded; and tables as made by hand or by Embroidermodder (comments, short rows, other quoting, RGB columns); oracle: a plain "
    "copy of the rows, thread fields and metadata; non-trivial = at least 3 rows; distinct by (format, rows, texts)"
)
ASSUMPTIONS = [
    "texts are valid unicode without lone surrogates, CSV has no difference between empty and absent thread text and loads metadata as text and positions as floats",
    "parameters are 0..254; a CSV field is shorter than 131072 characters",
]
MIN_EVENTS = {"rows_compared": 60000, "texts_compared": 20000, "dialect_rows": 15000}
FIELDS = ("description", "catalog_number", "details", "brand", "chart", "weight")
HOSTILE = ["", " ", "\"", "\"\"", "'", ",", ",,", "\n", "\r", "\r\n", "\t", "a\nb", "a\r\nb", "*", "#", "@", "$", ">", "\"*\",\"0\"", "\\", "\\n", "\\u00e9",
           "None", "null", "é", "中文", "😀", "\u2028", "\x00", "\x1a", "\ufeff", "\"\n\"", "*\n*", "\n*,0,STITCH,1,1\n", " lead", "trail ", "x" * 3000]
CMDS = sorted(v for v in NAMES.values() if v != NO_COMMAND)


def cases(tier):
    return 40000 if tier == "quick" else 150000


def a_text(rng):
    r = rng.random()
    if r < 0.35:
        return rng.choice(HOSTILE)
    if r < 0.6:
        return "".join(rng.choice(HOSTILE[:-1]) for _ in range(rng.randint(1, 5)))
    return gen.text(rng, rng.choice(("ascii", "wide", "print", "mix")))


def number(rng):
    r = rng.random()
    if r < 0.4:
        return rng.randint(-9999, 9999)
    if r < 0.5:
        return rng.choice((0, -0.0, 0.1, 1 / 3, 1e-9, 5e-324, 1e22, 123456789.123456789, 2 ** 40 + 1, -1e-5, 0.30000000000000004))
    if r < 0.7:
        return round(rng.uniform(-5000, 5000), rng.randint(0, 4))
    return rng.uniform(-5000, 5000)


def a_command(rng):
    if rng.random() < 0.02:
        return NO_COMMAND
    c = rng.choice(CMDS) if rng.random() < 0.7 else rng.choice((STITCH, JUMP, TRIM, COLOR_CHANGE))
    v = lambda: rng.choice((None, 0, 1, rng.randrange(255), 254))
    if c in (COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK, SET_CHANGE_SEQUENCE) or rng.random() < 0.15:
        return pack(c, v(), v(), v())
    return c


def once(mon):
    """files are the same whatever the locale of the process"""
    code = (
        "import sys; sys.path.insert(0, %r)\n"
        "from pyembroidery import EmbPattern, write, read\n"
        "p = EmbPattern(); p.add_stitch_absolute(0, 1, 2)\n"
        "p.metadata('name', 'na\\u00efve \\u4e2d'); p.add_thread({'rgb': 0x123456, 'name': 'bl\\u00e5'})\n"
        "for e in ('csv', 'json'):\n"
        "    write(p, 'l.' + e); q = read('l.' + e)\n"
        "    assert q.extras == p.extras and q.threadlist == p.threadlist, (e, ascii(q.extras), ascii(q.threadlist))\n"
    ) % core.REPO
    for env in ({"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, {"LC_ALL": "C.UTF-8"}):
        e = dict(os.environ)
        e.update(env)
        r = subprocess.run([sys.executable, "-c", code], cwd=mon.scratch, env=e, capture_output=True, text=True)
        mon.count("locales")
        mon.check(r.returncode == 0, "locale", "text files are not the same under %r" % env, r.stderr[-1500:])


def described(mon, data, rows, specs, extras, ws):
    """every cell of the CSV text, read with an independent CSV parser, states what it names"""
    table = [r for r in csv.reader(io.StringIO(data.decode("utf8"), newline="")) if r]
    groups = {}
    for r in table:
        groups.setdefault(r[0], []).append(r[1:])
    mon.count("csv_cells", sum(map(len, table)))
    heads = groups.pop("#")
    vals = dict(groups.pop(">"))
    commands = [r[2] & 0xFF for r in rows]
    bounds = (min(r[0] for r in rows), min(r[1] for r in rows), max(r[0] for r in rows), max(r[1] for r in rows)) if rows else None
    want = {"STITCH_COUNT:": len(rows), "THREAD_COUNT:": commands.count(COLOR_CHANGE), "NEEDLE_COUNT:": commands.count(NEEDLE_SET)}
    for k, v in want.items():
        mon.check(vals.pop(k, None) == str(v), "csv-summary", "csv: %s is not %r" % (k, v), lambda: (vals, rows[:20]))
    got = [vals.pop("EXTENTS_" + k + ":", None) for k in ("LEFT", "TOP", "RIGHT", "BOTTOM", "WIDTH", "HEIGHT")]
    if rows:
        wanted = bounds + (bounds[2] - bounds[0], bounds[3] - bounds[1])
        mon.check(None not in got and [float(g) for g in got] == [float(w) for w in wanted], "csv-summary", "csv: extents are %r, the design has %r" % (got, wanted))
    kinds = {}
    for r in rows:
        k = "COMMAND_" + name(r[2] & 0xFF)
        kinds[k] = kinds.get(k, 0) + 1
    mon.check(any(r[2] == NO_COMMAND for r in rows) or vals == {k: str(v) for k, v in kinds.items()}, "csv-summary", "csv: command counts %r, the design has %r" % (vals, kinds))
    version = ws.get("version", "delta" if "deltas" in ws else "full" if "displacement" in ws else "default")
    cols = ["[STITCH_INDEX]", "[STITCH_TYPE]", "[X]", "[Y]"] + {"default": [], "delta": ["[DX]", "[DY]"], "full": ["[DX]", "[DY]", "[R]", "[ANGLE]"]}[version]
    wh = [["[VAR_NAME]", "[VAR_VALUE]"]]
    if extras:
        wh.append(["[METADATA_NAME]", "[METADATA]"])
    if specs:
        wh.append(["[THREAD_NUMBER]", "[HEX_COLOR]", "[DESCRIPTION]", "[BRAND]", "[CATALOG_NUMBER]", "[DETAILS]", "[WEIGHT]", "[CHART]"])
    if rows:
        wh.append(cols)
    mon.check(heads == wh, "csv-heads", "csv: headings %r, expected %r" % (heads, wh))
    mon.check(sorted(map(tuple, groups.pop("@", []))) == sorted(extras.items()), "csv-metadata", "csv: metadata rows changed")
    order = ("description", "brand", "catalog_number", "details", "weight", "chart")
    for k, (g, d) in enumerate(zip(groups.pop("$", []), specs)):
        w = [str(k), "#%06x" % d["color"]] + [d.get(a) or "" for a in order]
        mon.check(g == w, "csv-thread", "csv: thread row is %r, expected %r" % (g, w))
    body = groups.pop("*", [])
    mon.check(not groups and len(body) == len(rows), "csv-rows", "csv: unexpected rows %r" % list(groups))
    px = py = 0
    for k, (g, r) in enumerate(zip(body, rows)):
        dx, dy = r[0] - px, r[1] - py
        px, py = r[0], r[1]
        w = {"default": [], "delta": [dx, dy], "full": [dx, dy, math.hypot(dx, dy), (math.atan2(dy, dx) + math.pi) / math.tau]}[version]
        ok = len(g) == 4 + len(w) and g[0] == str(k) and all(math.isclose(float(a), b, rel_tol=1e-9, abs_tol=1e-12) for a, b in zip(g[4:], w))
        mon.check(ok, "csv-columns", "csv %s: row %d reads %r, derived columns should be %r" % (version, k, g, w))


def dialect(rng, mon):
    """a CSV table made by hand or by Embroidermodder, in the same terms"""
    from pyembroidery import EmbPattern

    table, rows, threads, extras = [], [], [], {}
    pen = [0, 0]
    plain = lambda: rng.choice(("", "blue", "a, b", 'say "hi"', "Isacord", "é中", "two\nlines", "1234", "x y"))
    for _ in range(rng.choice((1, 4, 12))):
        k = rng.randrange(7)
        if k == 0:
            table.append(rng.choice((["#"], ["#", "[THREAD_NUMBER]", "[RED]"], [], ["# remark", "*", "STITCH"], [""], [" "], ["other", "x"])))
        elif k == 1:
            c = rng.choice(CMDS)
            v = lambda: rng.choice((None, 0, 1, 7, 254))
            t, n, o = (v(), v(), v()) if c in (COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK) else (None, None, None)
            word = [name(c)] + [a + str(b) for a, b in (("t", t), ("n", n), ("o", o)) if b is not None]
            x, y = number(rng), number(rng)
            if rng.random() < 0.4:
                table.append(["*", str(len(rows)), " ".join(word)])
                rows.append([0, 0, pack(c, t, n, o)])
            else:
                table.append(["*", str(len(rows)), " ".join(word), repr(x), repr(y)] + rng.choice(([], ["1", "2"], [""])))
                rows.append([float(x), float(y), pack(c, t, n, o)])
                pen = [float(x), float(y)]
        elif k == 2:
            key, val = plain() or "name", plain()
            table.append(["@", key, val])
            extras[key] = val
        elif k == 3:
            table.append(rng.choice((["@"], ["@", "name"], ["@", "name", "a", "b"])))
        elif k == 4:  # Embroidermodder: number, red, green, blue, description, catalogue number
            r, g, b = (rng.choice((0, 9, 10, 99, 100, 255, rng.randrange(256))) for _ in range(3))
            d, cat = plain(), plain()
            table.append(["$", str(len(threads)), str(r), str(g), str(b), d, cat])
            threads.append((r << 16 | g << 8 | b, d or None, cat or None, None, None, None, None))
        else:
            c = rng.randrange(1 << 24)
            f = [plain() for _ in range(rng.choice((0, 1, 2, 3, 4, 5, 6)))]
            text = "#%06x" % c
            if rng.random() < 0.3:
                text, c = rng.choice((("red", 0xFF0000), ("tan", 0xD2B48C), ("blue", 0x0000FF), ("navy", 0x000080)))
            if len(f) == 4:  # as many fields as Embroidermodder has, one at least is no colour component
                f[rng.choice((0, 1))] = "longer than three"
            table.append(["$", str(len(threads)), text] + f)
            f = [v or None for v in f] + [None] * (6 - len(f))
            threads.append((c, f[0], f[2], f[3], f[1], f[5], f[4]))
    out = io.StringIO(newline="")
    csv.writer(out, quoting=rng.choice((csv.QUOTE_ALL, csv.QUOTE_MINIMAL)), lineterminator=rng.choice(("\r\n", "\n"))).writerows(table)
    data = out.getvalue().encode("utf8")
    q = fmts.read("csv", data)
    mon.count("dialect_rows", len(table))
    mon.sig("dialect", table)
    detail = lambda: {"text": data.decode("utf8"), "read": q.stitches, "threads": [vars(t) for t in q.threadlist], "extras": q.extras}
    mon.check([list(r) for r in q.stitches] == rows, "dialect-rows", "csv: the rows read are not those of the table", detail)
    got = [(t.color & 0xFFFFFF,) + tuple(getattr(t, a) or None for a in ("description", "catalog_number", "details", "brand", "chart", "weight")) for t in q.threadlist]
    mon.check(got == threads, "dialect-threads", "csv: the threads read are %r, the table has %r" % (got, threads), detail)
    mon.check(dict(q.extras) == extras, "dialect-metadata", "csv: the metadata read is not that of the table", detail)
    q.stitch(1, 2)
    mon.check(list(q.stitches[-1]) == [pen[0] + 1, pen[1] + 2, STITCH], "dialect-pen", "csv: the pen stands at %r after reading, not %r" % (q.stitches[-1], pen), detail)


def case(i, rng, mon):
    if i % 8 == 1:
        dialect(rng, mon)
    fm = ("json", "csv")[i % 2]
    rows = [[number(rng), number(rng), a_command(rng)] for _ in range(rng.choice((0, 1, 3, 8, 20, 60)) if rng.random() > 0.002 else rng.choice((300, 1100)))]
    specs = []
    for _ in range(rng.choice((0, 1, 2, 5, 12)) if rng.random() > 0.004 else rng.choice((130, 257, 400))):
        d = {"color": rng.randrange(1 << 24)}
        for k in FIELDS:
            if rng.random() < 0.5:
                d[k] = a_text(rng)
        specs.append(d)
    extras = {}
    for _ in range(rng.choice((0, 1, 3, 6))):
        k = rng.choice(("name", "author", "copyright", "category", "keywords", "comments")) if rng.random() < 0.5 else a_text(rng)
        if fm == "json" and rng.random() < 0.2:
            extras[k] = rng.choice((1, 0, -5, 2.5, 10 ** 12))
        else:
            extras[k] = a_text(rng)
    ws = {}
    if fm == "csv":
        ws = rng.choice(({}, {"version": "default"}, {"version": "delta"}, {"version": "full"}, {"deltas": True}, {"displacement": True}))
    mon.note(fm, ws)
    p = gen.make_pattern(rows, specs, extras)
    if rng.random() < 0.25:
        from pyembroidery import read, write

        mon.count("files_by_name")
        fn = os.path.join(mon.scratch, "t." + fm)
        write(p, fn, ws)
        q = read(fn)
    else:
        data = fmts.write(fm, p, ws)
        q = fmts.read(fm, data)
        if fm == "csv" and "\x00" not in str(specs) + str(extras):
            described(mon, data, rows, specs, extras, ws)
    detail = lambda: {"rows": rows[:40], "read": q.stitches[:40], "specs": specs, "read threads": [vars(t) for t in q.threadlist], "extras": extras, "read extras": q.extras}
    got = [list(s) for s in q.stitches]
    mon.count("rows_compared", len(rows))
    mon.count("texts_compared", sum(len(d) for d in specs) + len(extras))
    if len(rows) >= 3:
        mon.sig(fm, rows, specs, extras)
        mon.sample({"format": fm, "rows": [[r[0], r[1], name(r[2])] for r in rows[:4]], "read": got[:4], "extras": extras})
    mon.check(len(got) == len(rows), "rows-changed", "%s: %d rows, %d loaded" % (fm, len(rows), len(got)), detail)
    for k, (a, b) in enumerate(zip(rows, got)):
        mon.check(a == b, "rows-changed", "%s: row %d is %r, loaded %r" % (fm, k, a, b), detail)
        if fm == "json":
            mon.check([type(v) for v in a[:2]] == [type(v) for v in b[:2]], "number-changed", "json: row %d changed its number type" % k, detail)
    mon.check(len(q.threadlist) == len(specs), "threads-changed", "%s: %d threads, %d loaded" % (fm, len(specs), len(q.threadlist)), detail)
    for k, (d, t) in enumerate(zip(specs, q.threadlist)):
        mon.check(t.color & 0xFFFFFF == d["color"], "thread-colour", "%s: thread %d is %06x, loaded %06x" % (fm, k, d["color"], t.color), detail)
        for a in FIELDS:
            w, g = d.get(a), getattr(t, a)
            if fm == "csv" and w == "":
                w = None
            mon.check(w == g, "thread-text", "%s: %s of thread %d is %r, loaded %r" % (fm, a, k, w, g), detail)
    mon.check({str(k): v for k, v in q.extras.items()} == extras, "metadata", "%s: metadata changed" % fm, detail)
    if fm == "json" and all(r[2] != NO_COMMAND for r in rows):
        mon.check(q == p, "not-equal", "json: the loaded pattern does not equal the saved one", detail)
