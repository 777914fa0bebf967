import io
import os
import re
import xml.parsers.expat

from lib import fmts, gen, refenc
from lib.cmds import *

ID = "P34"
LEVEL = "exploration"
RULE = (
    "random designs and command soups (fractional, huge and tiny positions, sequins, stops, many colours, explicit threads and needles, scaling) written as SVG and as both kinds of text, to streams and files, encoded and as they are; "
    "oracle: the SVG is parsed with expat and its path data with a parser of the SVG path grammar, paths must equal the runs of stitches of an independent encoder model with the colour "
    "of their block, size and view box its exact bounds; text lines must equal its rows one for one; non-trivial = at least 2 blocks or 3 kinds of command; distinct by rows and kind of file")
ASSUMPTIONS = [
    "SVG shows only stitches (sequins become stitches); text positions are in 1/10 mm, for embroidermodder in mm, both rounded to one digit; the text for embroidermodder has no speeds or middle-level commands",
    "there is a thread for each colour block; unencoded rows have a command of the documented table",
]
MIN_EVENTS = {"svg_paths": 10000, "svg_points": 40000, "txt_lines": 40000}
MIMIC = {STITCH: 0, JUMP: 1, TRIM: 2, STOP: 4, COLOR_CHANGE: 4, NEEDLE_SET: 4, SEQUIN_MODE: 8, SEQUIN_EJECT: 8, END: 16}
LINE = re.compile(r"^(-?\d+\.\d+),(-?\d+\.\d+) color:(\d+) command:([A-Z_]+) flags:(\d+)$")
MLINE = re.compile(r"^(-?\d+\.\d+),(-?\d+\.\d+) color:(\d+) flags:(\d+)$")
NUM = r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?"


def cases(tier):
    return 25000 if tier == "quick" else 250000


def path_points(d):
    """absolute vertices of a path made of straight segments"""
    toks = re.findall(r"[A-Za-z]|" + NUM, d)
    if re.sub(r"[A-Za-z]|" + NUM, "", d).strip(" ,\t\n\r"):
        raise ValueError("path data %r" % d[:60])
    out, k, cmd, x, y = [], 0, None, 0.0, 0.0
    while k < len(toks):
        if toks[k].isalpha():
            cmd = toks[k]
            k += 1
            if cmd in "zZ":
                raise ValueError("closed path")
            if k >= len(toks):
                raise ValueError("path command %s without points" % cmd)
            continue
        if cmd in ("M", "L", "m", "l"):
            px, py = float(toks[k]), float(toks[k + 1])
            k += 2
            x, y = (px, py) if cmd in "ML" else (x + px, y + py)
            if cmd in "Mm" and out:
                if toks[k - 3].isalpha():
                    raise ValueError("a second subpath")
        elif cmd in ("H", "h"):
            x = float(toks[k]) + (x if cmd == "h" else 0)
            k += 1
        elif cmd in ("V", "v"):
            y = float(toks[k]) + (y if cmd == "v" else 0)
            k += 1
        else:
            raise ValueError("path command %r" % cmd)
        out.append((x, y))
    return out


def parse_svg(data):
    root, paths, depth = [], [], [0]

    def start(tag, attr):
        tag = tag.split(":")[-1]
        if depth[0] == 0:
            root.append((tag, attr))
        elif tag == "path":
            paths.append(attr)
        depth[0] += 1

    def end(tag):
        depth[0] -= 1

    p = xml.parsers.expat.ParserCreate()
    p.StartElementHandler, p.EndElementHandler = start, end
    p.Parse(data, True)
    return root[0], paths


def near(a, b):
    return abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))


def case(i, rng, mon):
    from pyembroidery import EmbPattern, write_embroidery

    kind = ("svg", "txt", "svg", "mimic")[i % 4]
    mode = rng.choice(("int", "half", "any"))
    span, box = rng.choice(((4, 30), (60, 9000), (60, 9000), (900, 40000), (30000, 900000)))
    raw = rng.random() < 0.2
    r = rng.random()
    if r < 0.6:
        src, nb = gen.design(rng, span=span, box=box, mode=mode, sequins=rng.random() < 0.4, speeds=rng.random() < 0.3, needles=rng.random() < 0.2, huge=0.002)
    else:
        src = gen.soup(rng, rng.choice((0, 1, 4, 20, 60)), span=span, box=box, mode=mode, changeseq=0.2, drop={NO_COMMAND} if raw else ())
    s = {}
    if raw:
        s["encode"] = False
    else:
        if rng.random() < 0.2:
            s["scale"] = rng.choice((0.5, 2, 3))
        if rng.random() < 0.2:
            s["translate"] = (rng.randint(-500, 500), rng.randint(-500, 500))
        if rng.random() < 0.3:
            s["sequin_contingency"] = rng.choice((SEQUIN_JUMP, SEQUIN_UTILIZE, SEQUIN_STITCH, SEQUIN_REMOVE))
        if rng.random() < 0.2:
            s["max_stitch"] = s["max_jump"] = rng.choice((121, 255, 40000))
    es = {k: v for k, v in s.items() if k != "encode"}
    if kind == "svg":
        es.setdefault("sequin_contingency", SEQUIN_STITCH)
    elif kind == "mimic":
        s.update(rng.choice(({"mimic": True}, {"version": "embroidermodder"})))
    elif rng.random() < 0.3:
        s["version"] = "default"
    specs = gen.threads(rng, 300)
    p = gen.make_pattern(src, specs)
    mon.note(kind, s, show(src, 60))
    ext = "svg" if kind == "svg" else "txt"
    how = rng.randrange(4)
    if how == 0:
        fn = os.path.join(mon.scratch, "o." + ext)
        p.write(fn, **s)
        with open(fn, "rb") as f:
            data = f.read()
    elif how == 1:
        out = io.BytesIO()
        (EmbPattern.write_svg if ext == "svg" else EmbPattern.write_txt)(p, out, dict(s) if s or rng.random() < 0.5 else None)
        data = out.getvalue()
    else:
        data = fmts.write(ext, p, dict(s))
    if isinstance(data, str):
        data = data.encode("utf8")
    if raw:
        rows = [(r[0], r[1], base(r[2])) for r in src]
        used = list(range(len(specs)))
    else:
        ref, used = refenc.encode([tuple(r) for r in src], len(specs), es)
        rows = [r[:3] for r in ref]

    def detail(**k):
        return dict(k, settings=s, source=show(src, 60), rows=show(rows, 60))

    def color(b):
        return specs[used[b]]["color"] if b < len(used) else None

    if len({r[2] for r in rows}) >= 3:
        mon.sig(kind, rows)
        mon.sample({"kind": kind, "settings": s, "rows": show(rows, 10)})
    block = 0
    if kind == "svg":
        try:
            root, paths = parse_svg(data)
            got = [path_points(a["d"]) for a in paths]
        except Exception as e:
            mon.fail("svg-malformed", "the SVG is well formed: %s %s" % (type(e).__name__, e), detail(text=data[:300]))
            return
        want, run = [], []
        for r in rows:
            if r[2] == STITCH:
                run.append(r)
                continue
            if run:
                want.append((run, color(block)))
                run = []
            if r[2] == COLOR_CHANGE:
                block += 1
        if run:
            want.append((run, color(block)))
        mon.count("svg_paths", len(got))
        mon.count("svg_points", sum(map(len, got)))
        mon.check(root[0] == "svg" and root[1].get("xmlns") == "http://www.w3.org/2000/svg", "svg-root", "the document is SVG", lambda: detail(root=root))
        mon.check(len(got) == len(want), "svg-blocks", "%d paths for %d runs of stitches" % (len(got), len(want)), detail)
        for k, (g, (run, c), a) in enumerate(zip(got, want, paths)):
            mon.check(len(g) == len(run) and all(near(u[0], v[0]) and near(u[1], v[1]) for u, v in zip(g, run)), "svg-points", "path %d has the positions of its run" % k,
                      lambda: detail(path=g[:20], run=show(run, 20)))
            if c is not None:
                mon.check(a.get("stroke", "").lower() == "#%06x" % c, "svg-colour", "path %d is drawn in the colour of its block" % k, lambda: detail(attributes=a, colour="#%06x" % c))
            mon.check(a.get("fill") == "none", "svg-fill", "paths are not filled", lambda: detail(attributes=a))
        if rows:
            xs, ys = [r[0] for r in rows], [r[1] for r in rows]
            want = (min(xs), min(ys), max(xs) - min(xs), max(ys) - min(ys))
            try:
                box_ = [float(v) for v in re.split(r"[\s,]+", root[1]["viewBox"].strip())]
                size = (float(root[1]["width"]), float(root[1]["height"]))
            except Exception:
                box_, size = [], ()
            mon.check(len(box_) == 4 and all(near(u, v) for u, v in zip(box_, want)), "svg-viewbox", "the view box is that of the design", lambda: detail(viewbox=box_, want=want))
            mon.check(len(size) == 2 and all(near(u, v) for u, v in zip(size, want[2:])), "svg-size", "the size is that of the design", lambda: detail(size=size, want=want))
        return
    lines = data.decode("utf8").split("\n")
    mon.check(lines[-1] == "", "txt-end", "the text ends with a line end", detail)
    lines = lines[:-1]
    div = 10.0 if kind == "mimic" else 1.0
    want = []
    for x, y, c in rows:
        if c == COLOR_CHANGE:
            block += 1
        if kind == "mimic":
            if c in MIMIC:
                want.append((x / div, y / div, block, MIMIC[c]))
        else:
            want.append((x, y, color(block), c))
    mon.count("txt_lines", len(lines))
    mon.check(len(lines) == len(want), kind + "-count", "%d lines for %d rows" % (len(lines), len(want)), lambda: detail(lines=lines[:20]))
    for k, (t, w) in enumerate(zip(lines, want)):
        m = (MLINE if kind == "mimic" else LINE).match(t)
        ok = bool(m)
        if m:
            ok = abs(float(m.group(1)) - w[0]) <= 0.0500001 + 1e-9 * abs(w[0]) and abs(float(m.group(2)) - w[1]) <= 0.0500001 + 1e-9 * abs(w[1])
            ok = ok and (w[2] is None or int(m.group(3)) == w[2]) and int(m.group(m.lastindex)) == w[3]
            if kind == "txt":
                ok = ok and m.group(4) == NAME_OF[w[3]]
        mon.check(ok, kind + "-line", "line %d states its row" % k, lambda: detail(line=t, want=w))
        if not ok:
            return
