import os

from lib import fmts, gen, palettes, refdec, rt
from lib.cmds import *
from lib.palettes import dist

ID = "P07"
LEVEL = "exploration"
RULE = (
    "random designs (long moves, trims, stops, jumps, breaks, sequins, speeds, needle sets, empty and huge designs, hostile metadata) with random writer options "
    "written to DST, EXP, JEF, PEC, PES (four versions), VP3, XXX, U01, TBF, G-code and PMV and decoded by independent decoders; oracle: the file parses "
    "completely, every count, size, offset, bound and end mark agrees with the content, and the records are those of the design; non-trivial = at least 3 records; "
    "distinct by (format, records)"
)
ASSUMPTIONS = [
    "whole-unit designs (now and then without stitches) within the coordinate range of the formats, at most 254 colours, in PES runs of at most 65535 stitches (PMV: the first 100 points count)",
    "counts are those the writers document: DST, TBF and VP3 count the commands of the encoded design",
]
MIN_EVENTS = {"records": 100000, "header_fields": 20000}
FORMATS = ("dst", "exp", "jef", "pec", "pes", "vp3", "xxx", "u01", "tbf", "gcode", "pmv", "pes")
SPAN = {"dst": 90, "exp": 100, "jef": 100, "pec": 700, "pes": 700, "vp3": 200, "xxx": 100, "u01": 100, "tbf": 100, "gcode": 300, "pmv": 25}


def cases(tier):
    return 20000 if tier == "quick" else 150000


def raw_dst(low, ws, needles):
    out = []
    n = ws.get("trim_at", 3)
    for x, y, c in low:
        if c == TRIM:
            at, sign = 2, -1
            out.append((x + 2, y + 2, "jump"))
            for _ in range(n - 2):
                at += 4 * sign
                out.append((x + at, y + at, "jump"))
                sign = -sign
            out.append((x, y, "jump"))
        else:
            out.append((x, y, {STITCH: "stitch", JUMP: "jump", SEQUIN_EJECT: "jump", COLOR_CHANGE: "change", STOP: "change", END: "end", SEQUIN_MODE: "sequin_mode"}[c]))
    return out


def plain(names):
    def f(low, ws, needles):
        return [(x, y, names[c]) for x, y, c in low if c in names]

    return f


def raw_jef(low, ws, needles):
    out = []
    for x, y, c in low:
        if c == TRIM:
            if ws.get("trims"):
                out += [(x, y, "jump")] * ws.get("trim_at", 3)
        elif c in (STITCH, JUMP, COLOR_CHANGE, STOP, END):
            out.append((x, y, {STITCH: "stitch", JUMP: "jump", END: "end"}.get(c, "change")))
    return out


def raw_pec(low, ws, needles):
    out = []
    jumping = first = True
    px = py = 0
    for x, y, c in low:
        if c == STITCH:
            if jumping and x != px and y != py:
                out.append((px, py, "stitch"))
            jumping = False
            out.append((x, y, "stitch"))
        elif c == JUMP:
            jumping = True
            out.append((x, y, "jump" if first else "trimjump"))
        elif c in (COLOR_CHANGE, STOP):
            if jumping:
                out.append((px, py, "stitch"))
                jumping = False
            out.append((x, y, "change"))
        elif c == END:
            out.append((x, y, "end"))
        first = False
        px, py = x, y
    return out


def raw_u01(low, ws, needles):
    out = []
    speed = ""
    needles = iter(needles)
    for x, y, c in low:
        if c in (SLOW, FAST):
            speed = "slow " if c == SLOW else "fast "
        elif c in (STITCH, JUMP):
            out.append((x, y, speed + ("stitch" if c == STITCH else "jump")))
            speed = ""
        elif c == NEEDLE_SET:
            n = next(needles)
            out.append((x, y, "needle", n if n < 15 else n % 15 + 1))
        elif c in (STOP, TRIM):
            out.append((x, y, "stop" if c == STOP else "trim"))
    return out


def raw_tbf(low, ws, needles):
    needles = iter(needles)
    names = {STITCH: "stitch", JUMP: "jump", STOP: "stop", TRIM: "trim", END: "end"}
    return [(x, y, "needle", next(needles)) if c == NEEDLE_SET else (x, y, names[c]) for x, y, c in low if c == NEEDLE_SET or c in names]


RAW = {
    "dst": raw_dst, "exp": plain({STITCH: "stitch", JUMP: "jump", TRIM: "trim", COLOR_CHANGE: "change", STOP: "change"}), "jef": raw_jef, "pec": raw_pec,
    "pes": raw_pec, "xxx": plain({STITCH: "stitch", JUMP: "jump", TRIM: "trim", COLOR_CHANGE: "change", STOP: "change"}), "u01": raw_u01, "tbf": raw_tbf,
    "gcode": plain({STITCH: "stitch", COLOR_CHANGE: "change", STOP: "change", END: "end"}),
}

LENGTHS = [(0, 0), (10, 71), (20, 143), (40, 214), (60, 286), (80, 357), (100, 429), (120, 500), (140, 571), (160, 714), (180, 786), (200, 857),
           (250, 1000), (300, 1286), (350, 1429), (400, 1571), (450, 1786), (500, 2000)]


class H:
    """header checks with counting"""

    def __init__(self, mon, fm, detail, tol):
        self.mon, self.fm, self.detail, self.tol = mon, fm, detail, tol

    def box(self, what, got, want, tol=1):
        """sizes and bounds: exact, unless the extremes are between units"""
        self.mon.count("header_fields")
        for g, w in zip(got, want) if isinstance(got, (tuple, list)) else ((got, want),):
            if abs(g - w) > self.tol * tol:
                self.mon.fail("header:" + what, "%s: %s is %r in the file, the content has %r" % (self.fm, what, got, want), self.detail())

    def __call__(self, what, got, want):
        self.mon.count("header_fields")
        if got != want:
            self.mon.fail("header:" + what, "%s: %s is %r in the file, the content has %r" % (self.fm, what, got, want), self.detail())


def bounds(rows):
    xs, ys = [r[0] for r in rows], [r[1] for r in rows]
    return (min(xs), min(ys), max(xs), max(ys)) if rows else (0, 0, 0, 0)


def check_graphics(h, mon, blocks, graphics, box):
    """icons: the first shows every stitch, the others one colour block each"""
    h("icons", len(graphics), len(blocks) + 1)
    l, t, r, b = box
    w, hh = max(r - l, 0) or 1, max(b - t, 0) or 1
    frames = []
    for k, icon in enumerate(graphics):
        buffer = 4 if k == 0 else 5
        scale = min((48 - buffer) / float(w), (38 - buffer) / float(hh))
        pts = [p for bl in blocks for p in bl] if k == 0 else blocks[k - 1]
        lit = {(8 * (n % 6) + i, n // 6) for n, v in enumerate(icon) for i in range(8) if v >> i & 1}
        px = {((x - (l + r) / 2.0) * scale + 24, (y - (t + b) / 2.0) * scale + 19) for x, y in pts}
        at = {(int(x), int(y)) for x, y in px}
        for x, y in px:
            mon.count("icon_points")
            near = any((int(x) + dx, int(y) + dy) in lit for dx in (-1, 0, 1) for dy in (-1, 0, 1))
            if not near:
                mon.fail("icon", "%s: icon %d does not show the stitch at (%.1f, %.1f)" % (h.fm, k, x, y), h.detail())
        frames.append(lit - {(x + dx, y + dy) for x, y in at for dx in (-1, 0, 1) for dy in (-1, 0, 1)})
    # what is left is the frame, the same in all of them where no stitch is near
    for k, f in enumerate(frames):
        extra = f - FRAME
        if extra:
            mon.fail("icon", "%s: icon %d shows points at %s where no stitch is" % (h.fm, k, sorted(extra)[:5]), h.detail())


def frame():  # the picture frame of the icons, one pixel wide, with cut corners
    out = {(x, 1) for x in range(4, 44)} | {(x, 36) for x in range(4, 44)}
    out |= {(3, 2), (44, 2), (3, 35), (44, 35), (2, 3), (45, 3), (2, 34), (45, 34)}
    out |= {(1, y) for y in range(4, 34)} | {(46, y) for y in range(4, 34)}
    return out


FRAME = frame()


def needle_blocks(rows):
    """stitch positions per colour block"""
    out = [[]]
    for x, y, k in [r[:3] for r in rows]:
        if k == "change":
            out.append([])
        elif k == "stitch":
            out[-1].append((x, y))
    return out


def case(i, rng, mon):
    fm = ext = FORMATS[i % len(FORMATS)]
    big = rng.random() < 0.03
    rows, nb = gen.design(rng, span=rng.choice((20, SPAN[ext], SPAN[ext])), speeds=rng.random() < 0.3, sequins=rng.random() < 0.3,
                          box=rng.choice((3000, 9000, 15000)), blocks=(rng.choice((3, 9)) if ext == "tbf" else rng.choice((20, 60, 100))) if big else None,
                          per=rng.choice((None, 150)) if big else None, huge=0.004)
    if i < 2 * len(FORMATS):
        rows = gen.longest(rng, SPAN[ext])
        for k in (60000, 30000):  # the sections of a PES hold at most 65535 stitches
            if ext == "pes" or rng.random() < 0.5:
                rows.insert(k, rows[k - 1][:2] + [COLOR_CHANGE])
    elif rng.random() < 0.04:  # nothing to sew
        rows, nb, at = [], 1, [0, 0]
        for _ in range(rng.choice((0, 0, 1, 2, 3))):
            k = rng.choice((JUMP, JUMP, TRIM, SLOW))
            if k == JUMP:
                at = [rng.randint(-300, 300), rng.randint(-300, 300)]
            rows.append([at[0], at[1], k])
        if rng.random() < 0.7:
            rows.append([at[0], at[1], END])
        mon.count("unsewn")
    ws = fmts.random_settings(rng, ext)
    side = None
    if ext == "tbf" and rng.random() < 0.5:
        side = ws["ct0"] = os.path.join(mon.scratch, "side.ct0")
    nth = len([1 for r in rows if base(r[2]) in (COLOR_CHANGE, COLOR_BREAK, STOP)]) + 1
    specs = [{"color": c} for c in gen.colors(rng, nth)]
    extras = {}
    if rng.random() < 0.5:
        for k in ("name", "author", "copyright", "category", "keywords", "comments"):
            if rng.random() < 0.5:
                extras[k] = gen.text(rng, "mix", 1, rng.choice((5, 20, 100, 300)))
        for d in specs:
            for k in ("description", "catalog_number", "brand", "chart"):
                if rng.random() < 0.4:
                    d[k] = gen.text(rng, "mix", 1, 20)
    date = ws.get("date")
    enc, used = rt.encoded(ext, rows, nth, {})
    if ext in ("pec", "pes") and sum(o[2] in (COLOR_CHANGE, STOP) for o in enc) > 126:
        return  # the addendum has room for 127 colour blocks
    mon.note(ext, ws)
    p = gen.make_pattern(rows, specs, extras)
    data = fmts.write(ext, p, ws)
    low = [o[:3] for o in enc]
    seq = [specs[t]["color"] for t in used]
    allrows = low
    if ext not in ("dst",):
        to = STITCH if ext == "gcode" else JUMP
        low = [(x, y, to if c == SEQUIN_EJECT else c) for x, y, c in low if c != SEQUIN_MODE]
    frac = set()
    box = bounds(low)
    if ext in rt.ROUNDED or ext == "u01":  # whole units, each step rounded from where the last one ended
        x = y = 0
        for k, o in enumerate(low):
            if o[0] % 1 or o[1] % 1:  # on the way of a split move: may round either way
                frac.add((x + rt.rnd(o[0] - x), y + rt.rnd(o[1] - y)))
            x, y = x + rt.rnd(o[0] - x), y + rt.rnd(o[1] - y)
            low[k] = (x, y, o[2])
    detail = lambda: {"options": ws, "source": show(rows, 120), "extras": extras, "bytes": data[:3000].hex()}
    h = H(mon, ext, detail, 1 if any(v % 1 for v in box) else 0)
    mon.count("files_" + ext)
    needles = [o[4] for o in enc if o[2] == NEEDLE_SET]
    try:
        if ext == "pes":
            d = refdec.pes(data)
            if isinstance(d, tuple):
                nblocks = sum(c in (COLOR_CHANGE, STOP) for _, _, c in low) + 1 if seq else 0
                truncated = str(ws.get("version", ws.get("pes version", 1))).endswith("t")
                d = refdec.pes6_tail(d[0], d[1], nblocks, truncated)
        else:
            d = getattr(refdec, ext)(data)
    except refdec.Bad as e:
        mon.fail("malformed", "%s: %s" % (ext, e), detail())
    except (UnicodeDecodeError, ValueError) as e:
        mon.fail("malformed", "%s: %s: %s" % (ext, type(e).__name__, e), detail())

    if ext in RAW:
        want = [tuple(r) + (None,) * (4 - len(r)) for r in RAW[ext](low, ws, needles)]
        ev = d["pec"]["events"] if ext == "pes" else d["events"]
        got = [tuple(r) for r in ev]
        if ext == "gcode":
            got = [(round(x, 6), round(y, 6), k, None) for x, y, k, _ in got]
            want = [w if w[2] == "stitch" else None for w in want], [w[2] for w in want]
            gs = [g if g[2] == "stitch" else None for g in got], [g[2] for g in got]
            ok = gs[1] == want[1] and all(a is None or abs(a[0] - b[0]) < 0.006 and abs(a[1] - b[1]) < 0.006 for a, b in zip(gs[0], want[0]))
            mon.check(ok, "records", "gcode: the program is not that of the design", lambda: (want, gs, detail()))
            mon.count("records", len(got))
        else:
            for k in range(max(len(got), len(want))):
                mon.count("records")
                g, w = got[k] if k < len(got) else None, want[k] if k < len(want) else None
                if g != w and not (g and w and g[2:] == w[2:] and w[:2] in frac and max(abs(g[0] - w[0]), abs(g[1] - w[1])) <= 1):
                    mon.fail("records", "%s: record %d is %r, the design has %r (%d and %d records)" % (ext, k, g, w, len(got), len(want)), detail())
        if len(got) >= 3:
            mon.sig(ext, got)
            mon.sample({"format": ext, "options": ws, "design": show(rows, 6), "decoded": got[:6]})
    last = low[-1]
    if ext == "dst":
        f = d["fields"]
        num = lambda k: int(f[k][0].replace(b" ", b""))
        h("ST", num("ST"), len(allrows))
        h("CO", num("CO"), sum(c == COLOR_CHANGE for _, _, c in allrows) + (sum(c == STOP for _, _, c in allrows) if ws.get("version") == "extended" else 0))
        for k, w in (("+X", box[2]), ("-X", box[0]), ("+Y", box[3]), ("-Y", box[1])):
            h.box(k, num(k), abs(w))
        h("AX", num("AX"), last[0])
        h("AY", num("AY"), -last[1])
        h("MX, MY, PD", (num("MX"), num("MY"), f["PD"]), (0, 0, [b"******"]))
        name = extras.get("name", "Untitled").encode("utf8")[:256].decode("utf8", "ignore").encode("utf8")
        h("LA", f["LA"][0].strip(), name.strip())
        if ws.get("version") == "extended":
            tc = f.get("TC", [])
            blocks = []
            k = 0
            for _, _, c in [(0, 0, COLOR_CHANGE)] + allrows if seq else ():
                if c in (COLOR_CHANGE, STOP):
                    blocks.append(seq[k - 1 if c == STOP else k])
                    k += c == COLOR_CHANGE
            h("TC", [int(t[1:7], 16) for t in tc], blocks[:len(tc)])
    elif ext == "jef":
        w, hh = box[2] - box[0], box[3] - box[1]
        half = [int(round(w / 2)), int(round(hh / 2))]
        h.box("half size", d["half"], half * 2)
        hoop = 1 if w < 500 and hh < 500 else 3 if w < 1260 and hh < 1100 else 2 if w < 1400 and hh < 2000 else 4 if w < 2000 and hh < 2000 else 0
        if not h.tol:
            h("hoop", d["hoop"], hoop)
        for k, (a, b) in enumerate(((550, 550), (250, 250), (700, 1000), (700, 1000))):
            e = [a - half[0], b - half[1]] * 2
            if not h.tol:
                h("hoop edges", d["edges"][k], e if min(e) >= 0 else [-1] * 4)
        h("date", d["date"], date.encode() if date else d["date"])
        h("colours", len(d["palette"]), 1 + sum(c in (COLOR_CHANGE, STOP) for _, _, c in low))
    elif ext in ("pec", "pes"):
        pc = d if ext == "pec" else d["pec"]
        name = extras.get("name", "Untitled")[:8].encode("utf8")[:8].decode("utf8", "ignore").encode("utf8")
        h("label", pc["label"], name.ljust(16))
        h.box("size", pc["size"], (box[2] - box[0], box[3] - box[1]))
        nblocks = sum(c in (COLOR_CHANGE, STOP) for _, _, c in low) + 1
        h("colours", len(pc["palette"]), nblocks if seq else 0)
        ch = [(x, y, {STITCH: "stitch", COLOR_CHANGE: "change", STOP: "change"}.get(c)) for x, y, c in low]
        check_graphics(h, mon, needle_blocks(ch), pc["graphics"], box)
        if ext == "pes":
            pes_checks(h, mon, d, low, box, seq, specs, used, extras, ws)
    elif ext == "vp3":
        vp3_checks(h, mon, d, low, box, seq, specs, used)
    elif ext == "xxx":
        h("count", d["count"], len(low) - 1)
        h.box("size", d["size"], (box[2] - box[0], box[3] - box[1]))
        h("last", d["last"], last[:2])
        h.box("left", d["left"], box[0])
        h.box("bottom", d["bottom"], box[3])
        want = seq[:1]
        k = 0
        for _, _, c in low:
            if c in (COLOR_CHANGE, STOP):
                k += c == COLOR_CHANGE
                want.append(seq[k])
        h("colours", d["colors"], want)
    elif ext == "u01":
        h.box("bounds", d["bounds"], [box[0], box[3], box[2], box[1]])
        h("count", d["count"], len(low) + 1)
        h("last", d["last"], last[:2])
    elif ext == "tbf":
        f = d["fields"]
        num = lambda k: int(f[k][0].replace(b" ", b""))
        h("ST", num("ST"), len(low))
        h("CO", num("CO"), len(needles))
        for k, w in (("+X", box[2]), ("-X", box[0]), ("+Y", box[3]), ("-Y", box[1])):
            h.box(k, num(k), abs(w))
        h("AX", num("AX"), last[0])
        h("AY", num("AY"), -last[1])
        name = extras.get("name", "Untitled").encode("utf8")[:16].decode("utf8", "ignore").encode("utf8")
        h("LA", f["LA"][0], name.ljust(16))
        h("JC", (f["JC"], [v.rstrip(b" ") for v in f["TP"]]), ([b"3"], [b"EG/"]))
        if side:
            with open(side, "rb") as fh:
                extra = fh.read()
            os.remove(side)
            try:
                h("control file", refdec.ct0(extra), needles)
            except refdec.Bad as e:
                mon.fail("malformed", "tbf control file: %s" % e, detail())
        h("threads", d["threads"], [s["color"] for s in specs][:201])  # the header has room for so many
    elif ext == "gcode":
        f = {}
        for t in d["comments"]:
            k, _, v = t.partition(": ")
            f.setdefault(k, v)
        h("STITCH_COUNT", int(f["STITCH_COUNT"]), len(allrows))
        h("THREAD_COUNT", int(f["THREAD_COUNT"]), sum(c == COLOR_CHANGE for _, _, c in allrows))
        g = bounds(allrows)
        for k, w in zip(("LEFT", "TOP", "RIGHT", "BOTTOM", "WIDTH", "HEIGHT"), g + (g[2] - g[0], g[3] - g[1])):
            h("EXTENTS_" + k, abs(float(f["EXTENTS_" + k]) - w / 10.0) < 0.0006, True)
        step = ws.get("stitch_z_travel", 10.0)
        h("z", all(abs(z - k * step) < 0.051 for k, z in enumerate(d["z"])), True)
    elif ext == "pmv":
        pts = [(x, -y) for x, y, c in low if c in (STITCH, JUMP)][:100]
        h("points", len(d["points"]), len(pts))
        if not pts:
            return
        lo, hi = min(y for _, y in pts), max(y for _, y in pts)
        mid = (lo + hi) / 2.0
        sy = 14.0 / (hi - mid) if hi - mid > 35 else 0.4
        for k, ((gx, gy), (x, y)) in enumerate(zip(d["points"], pts)):
            mon.count("records")
            if abs(gx - x * 0.4) > 0.5 + 1e-6 or abs(gy - (y - mid) * sy) > 0.5 + 1e-6:
                mon.fail("records", "pmv: point %d is (%d, %d), the design has (%.2f, %.2f)" % (k, gx, gy, x * 0.4, (y - mid) * sy), detail())
        h("length table", d["tables"][0], LENGTHS)
        wr = max(y for _, y in d["points"]) - min(y for _, y in d["points"])
        want = [(50 * k, int(round(k * 2000.0 / wr))) for k in range(15)] if wr else [(8192, 1000)]
        near = len(d["tables"][1]) == len(want) and all(a == p and abs(b - q) <= 1 for (a, b), (p, q) in zip(d["tables"][1], want))
        h("width table", want if near else d["tables"][1], want)
        mon.sig(ext, d["points"])


def pes_checks(h, mon, d, low, box, seq, specs, used, extras, ws):
    v = ws.get("version", ws.get("pes version", 1))
    h("version", d["version"], 6 if str(v).startswith("6") else 1)
    truncated = str(v).endswith("t")
    h("sections present", "sections" in d, not truncated)
    blocks = []  # colour of each block, stops repeat it
    k = 0
    for _, _, c in [(0, 0, COLOR_CHANGE)] + low if seq else ():
        if c in (COLOR_CHANGE, STOP):
            blocks.append(seq[k - 1 if c == STOP else k])
            k += c == COLOR_CHANGE
    if d["version"] == 6:
        def cut(s):
            return (s or "").encode("utf8")[:255].decode("utf8", "ignore")

        h("text", d["text"], [cut(extras.get(k)) for k in ("name", "category", "author", "keywords", "comments")])
        h("thread colours", [t["color"] for t in d["threads"]], blocks)
        if not truncated:
            h("addendum colours", d["addendum"], blocks)
    if truncated:
        return
    # the sections: runs of stitches and of jumps, in the colour of their block
    want = []
    blk = 0
    prev = None
    sx = sy = 0
    ax, ay = box[0], box[3]
    for x, y, c in low:
        if c != prev or c not in (STITCH, JUMP):
            if c == STITCH:
                want.append([0, blk, []])
            elif c == JUMP:
                want.append([1, blk, [(sx - ax, sy - ay), None]])
        if c == STITCH:
            want[-1][2].append((x - ax, y - ay))
            sx, sy = x, y
        elif c == JUMP:
            want[-1][2][1] = (x - ax, y - ay)
        elif c in (COLOR_CHANGE, STOP):
            blk += 1
        prev = c
    h("section count", len(d["sections"]), len(want))
    log = []
    for k, (g, w) in enumerate(zip(d["sections"], want)):
        h("section kind", (k, g[0]), (k, w[0]))
        near = len(g[2]) == len(w[2]) and all(max(abs(a - p), abs(b - q)) <= 1 + h.tol for (a, b), (p, q) in zip(g[2], w[2]))
        h("section points", (k, g[2]) if not near else k, (k, [tuple(p) for p in w[2]]) if not near else k)
        c = blocks[w[1]] if blocks else None
        if c is None:
            pass
        elif d["version"] == 6:
            h("section colour", (k, d["threads"][g[1]]["color"]), (k, c))
        else:
            h("section colour", (k, 0 < g[1] < 65 and dist(c, palettes.PEC[g[1]])), (k, min(dist(c, e) for e in palettes.PEC[1:])))
        if not log or log[-1][1] != g[1]:
            log.append((k, g[1]))
    h("colour log", d["colorlog"], log)
    h.box("block size", d["block size"], (box[2] - box[0], box[3] - box[1]))


def vp3_checks(h, mon, d, low, box, seq, specs, used):
    l, t, r, b = box
    h.box("bounds", d["bounds"], [r * 100, -t * 100, l * 100, -b * 100], 100)
    h("count", d["count"], len(low) - 1)
    w, hh = r - l, b - t
    h.box("center", d["center"], (int((l + r) * 50), int((t + b) * -50)), 100)
    h.box("extents", d["extents"], [-w * 50, w * 50, -hh * 50, hh * 50], 100)
    h.box("size", d["size"], (w * 100, hh * 100), 100)
    blocks = [[]]
    starts = [(0, 0)]
    for x, y, c in low:
        if c == COLOR_CHANGE:
            blocks.append([])
            starts.append((x, y))
        elif c == STITCH:
            blocks[-1].append((x, y, "stitch"))
        elif c == TRIM:
            blocks[-1].append((x, y, "trim"))
        elif c == END:
            blocks[-1].append((x, y, "trim"))
        else:
            continue
    h("blocks", len(d["blocks"]), len(blocks))
    for k, (g, bl) in enumerate(zip(d["blocks"], blocks)):
        s = specs[used[k]] if used else None
        if s:
            h("colour", (k, g["color"]), (k, s["color"]))
        for a in ("catalog_number", "description", "brand") if s else ():
            h(a, (k, g[a]), (k, s.get(a, "#%06x" % s["color"] if a == "description" else "")))
        h("start", (k, g["from"]), (k, (float(starts[k][0]), float(starts[k][1]))))
        if k + 1 < len(blocks):
            end = d["blocks"][k + 1]["start"]
            h("shift", (k, (g["start"][0] + g["shift"][0], g["start"][1] + g["shift"][1])), (k, shifted(low, k, d["center"])))
        mon.count("records", len(bl))
        px, py = g["from"]
        tol = 1 if any(v % 1 for e in bl for v in e[:2]) or g["from"] != (int(px), int(py)) else 1e-6  # parts of a unit are dropped and carried on
        ev = []
        for x, y, kind in bl:
            if kind == "stitch":
                px, py = x, y
            ev.append((px, py, kind))
        got = [e[:3] for e in g["events"]]
        off = lambda a, c: a[2] != c[2] or max(abs(a[0] - c[0]), abs(a[1] - c[1])) > tol
        if len(got) != len(ev) or any(off(a, c) for a, c in zip(got, ev)):
            j = next((j for j, (a, c) in enumerate(zip(got, ev)) if off(a, c)), min(len(got), len(ev)))
            mon.fail("records", "vp3: record %d of block %d is %s, the design has %s" % (j, k, got[j:j + 1], ev[j:j + 1]), h.detail())
    mon.sig("vp3", [(g["color"], g["events"]) for g in d["blocks"]])


def shifted(low, k, center):
    """where block k ends, as the file states positions: its last row"""
    n = -1
    last = (0, 0)
    j = 0
    for x, y, c in low:
        if c == COLOR_CHANGE:
            if j == k:
                return (last[0] * 100 - center[0], -last[1] * 100 - center[1])
            j += 1
        last = (x, y)
    return (last[0] * 100 - center[0], -last[1] * 100 - center[1])
