from lib import fmts, gen, rt
from lib.cmds import *

ID = "P04"
LEVEL = "exploration"
RULE = (
    "random designs with texts of every length and alphabet (ASCII, accents, CJK, emoji, quotes, separators, control characters) in every text field, "
    "written and read in DST (default, extended), PES 1 and 6 (full, truncated), PEC, VP3, TBF, G-code, EXP, JEF, XXX, U01; oracle: the text cut "
    "to the field size of the format, and the stitches and colours read without any text; non-trivial = a text field that comes back; distinct by (format, texts)"
)
ASSUMPTIONS = [
    "field sizes: DST name 256 bytes and optional fields that fit its 512 byte header, PES fields 255 bytes, PEC label the first 8 characters in 8 bytes, TBF name 16 bytes",
    "equality is decided for texts without control characters and without leading or trailing space; a DST catalogue number has no comma; empty text equals no text",
]
MIN_EVENTS = {"texts_compared": 4000, "damage_checks": 2000}
FORMATS = ("dst", "dstx", "pes6", "pes1", "pec", "vp3", "tbf", "gcode", "pes6", "vp3", "dstx", "any")
EMOJI = "😀𝄞🧵"
CONTROL = "\r\n\t\x00\x1a\x7f\x01"


def cases(tier):
    return 30000 if tier == "quick" else 150000


def a_text(rng, hostile):
    n = rng.choice((1, 2, 5, 7, 8, 9, 14, 15, 16, 17, 30, 60, 84, 85, 120, 127, 128, 200, 254, 255, 256, 257, 300, 700))
    if rng.random() < 0.6:
        n = min(n, 30)
    pool = rng.choice(("ascii", "wide", "print", "mix"))
    a = gen.TEXT_POOLS[pool] if pool != "mix" else gen.TEXT_POOLS["ascii"] + gen.TEXT_POOLS["wide"] + EMOJI
    if hostile:
        a = a + CONTROL
    s = "".join(rng.choice(a) for _ in range(n))
    if rng.random() < 0.2:
        s = rng.choice(("LA:", "TC:#ff0000,", "#PES0060", "(", ")", "M30", "G00 X1 Y1", "None", "%s", "%d%n", "\\u0000")) + s
    return s if hostile else s.strip() or "x"


def cut(s, n):
    return s.encode("utf8")[:n].decode("utf8", "ignore")


META = ("name", "author", "copyright", "category", "keywords", "comments")
THREAD = ("description", "catalog_number", "brand", "chart")


def case(i, rng, mon):
    fm = FORMATS[i % len(FORMATS)]
    if fm == "any":
        fm = rng.choice(("exp", "jef", "xxx", "u01"))
    ext = fm[:3] if fm[:3] in ("dst", "pes") else fm
    hostile = rng.random() < 0.25
    rows, nb = gen.design(rng, blocks=rng.choice((1, 2, 3, 6)), per=rng.choice((2, 5)), span=40, stops=False, trims=True, breaks=False, change="change")
    specs = [{"color": c} for c in gen.colors(rng, nb, True)]
    ws = {"dstx": {"version": "extended"}, "pes1": {"version": rng.choice(("1", "1t"))}, "pes6": {"version": rng.choice(("6", "6t"))},
          "jef": {"date": "20200102030405"}}.get(fm, {})
    bare = fmts.read(ext, fmts.write(ext, gen.make_pattern(rows, specs), ws))
    extras = {k: a_text(rng, hostile) for k in META if rng.random() < 0.6}
    if fm == "tbf" and rng.random() < 0.3:
        extras["tp"] = a_text(rng, hostile)
    tspecs = []
    for d in specs:
        d = dict(d)
        for k in THREAD:
            if rng.random() < 0.6:
                d[k] = a_text(rng, hostile)
        tspecs.append(d)
    mon.note(fm, ws, extras, tspecs)
    p = gen.make_pattern(rows, tspecs, extras)
    q = fmts.read(ext, fmts.write(ext, p, ws))
    detail = lambda: {"format": fm, "options": ws, "metadata": extras, "threads": tspecs, "read metadata": {k: v for k, v in q.extras.items() if isinstance(v, str)},
                      "read threads": [(t.color, t.description, t.catalog_number, t.brand, t.chart) for t in q.threadlist]}
    mon.count("damage_checks")
    mon.check(rt.real_rows(bare) == rt.real_rows(q), "stitches-damaged", "%s: the stitches change with the texts of the design" % fm, detail)

    def rgb(x):
        return [t.color & 0xFFFFFF for t in x.threadlist]

    fit = True
    if fm == "dstx":  # colours whose line does not fit are left out
        size = 1 + sum(len(("TC:#%06x,%s,%s\r" % (d["color"], d.get("description", ""), d.get("catalog_number", ""))).encode("utf8")) for d in tspecs)
        size += sum(4 + len(extras[k].encode("utf8")) for k in ("author", "copyright") if k in extras)
        size += 4 + max(16, len(cut(extras.get("name", ""), 256).encode("utf8"))) + 11 + 7 + 9 * 4 + 10 * 4 + 10
        fit = size <= 500
    if fit and not (fm in ("dstx", "gcode") and hostile):
        if fm in ("pec", "pes1"):
            # the palette is assigned per thread, text included
            mon.check(len(rgb(q)) == len(rgb(bare)), "colours-damaged", "%s: the number of colours changes with the texts" % fm, detail)
        else:
            mon.check(rgb(bare) == rgb(q), "colours-damaged", "%s: the colours change with the texts of the design" % fm, detail)
    if hostile:
        return
    want, got = {}, {}
    if ext == "dst":
        if extras.get("name"):
            want["name"] = cut(extras["name"], 256).strip()
        if fm == "dstx" and fit:
            for k in ("author", "copyright"):
                if k in extras:
                    want[k] = extras[k]
            for j, d in enumerate(tspecs):
                if "," in d.get("catalog_number", ""):
                    continue
                for k in ("description", "catalog_number"):
                    v = d.get(k)
                    want[(j, k)] = None if v == "None" else v
    elif fm == "pes6":
        for k in ("name", "category", "author", "keywords", "comments"):
            if k in extras:
                want[k] = cut(extras[k], 255)
        for j, d in enumerate(tspecs):
            for k in THREAD:
                want[(j, k)] = None if k not in d else cut(d[k], 255)
    elif fm in ("pec", "pes1"):
        if "name" in extras:
            want["Name"] = cut(extras["name"][:8], 8).strip()
    elif fm == "vp3":
        for j, d in enumerate(tspecs):
            for k in ("description", "catalog_number", "brand"):
                want[(j, k)] = d.get(k)
            if "description" not in d:
                want[(j, "description")] = "#%06x" % d["color"]
    elif fm == "tbf":
        if "name" in extras:
            want["name"] = cut(extras["name"], 16).strip()
    for k, v in want.items():
        if isinstance(k, tuple):
            g = getattr(q.threadlist[k[0]], k[1])
        else:
            g = q.get_metadata(k)
        mon.count("texts_compared")
        if (g or None) != (v or None):
            mon.fail("text-changed", "%s: %r reads back as %r, the design says %r" % (fm, k, g, v), detail())
    if want:
        mon.sig(fm, sorted(want.items(), key=str))
        mon.sample({"format": fm, "text": list(want.items())[:3]})
