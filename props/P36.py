import io
import os

from lib import gen
from lib.cmds import *

ID = "P36"
LEVEL = "exploration"
RULE = (
    "random template sets (any subset of the templates for patterns, metadata, threads, documents, colours, blocks, joins, segments and single commands, keyed templates, first and last stitches, random value "
    "placeholders) expanded over random designs, encoded and as they are, with ends in the middle and without an end; oracle: reference expansion from the documented structure, compared to the text written, and "
    "openings and closings counted and nested; non-trivial = at least 2 kinds of structure; distinct by structure written")
ASSUMPTIONS = [
    "a needle change occurs only where no colour is open, templates name only values documented for their element, a stitch both first and last of its block takes the first's template",
    "a segment join is written after its segment, wherever it stands; positions are formatted to at most three digits",
]
MIN_EVENTS = {"segments": 40000, "blocks": 15000, "colors": 8000, "documents": 3000}
CORE = [STITCH] * 8 + [JUMP] * 3 + [TRIM, TRIM, COLOR_CHANGE, STOP, SLOW, FAST, SEQUIN_MODE, SEQUIN_EJECT, SEQUIN_EJECT]
SINGLE = {"stitch": STITCH, "stop": STOP, "jump": JUMP, "trim": TRIM, "needle_set": NEEDLE_SET, "color_change": COLOR_CHANGE, "sequin": SEQUIN_EJECT, "sequin_mode": SEQUIN_MODE,
          "slow": SLOW, "fast": FAST, "end": END}
STATS = ["stitch_total", "thread_total", "stitch_count", "jump_count", "trim_count", "color_change_count", "stop_count", "end_count", "sequin_eject_count", "needle_set_count",
         "extents_left:.3f", "extends_top:.3f", "extends_right:.3f", "extends_bottom:.3f", "extends_width:.3f", "extends_height:.3f", "extents_left_mm:.3f", "extends_top_mm:.3f",
         "extends_right_mm:.3f", "extends_bottom_mm:.3f", "extends_width_mm:.3f", "extends_height_mm:.3f", "title", "author"]
ROWS = ["x:.3f", "y:.3f", "_x:.3f", "_y:.3f", "dx:.3f", "dy:.3f", "idx", "idy", "_idx", "_idy", "ix", "iy", "_ix", "_iy", "last_x:.3f", "last_y:.3f", "_last_x:.3f", "_last_y:.3f", "z:.2f",
        "index", "cmd_str", "cmd", "cmd_thread", "cmd_needle", "cmd_order"]
DOC = ["document_index", "document_index1"]
COL = DOC + ["color_index", "color_index1"]
BLK = COL + ["block_index", "block_index1"]
THREAD = ["thread_index", "thread_color", "thread_description", "thread_brand", "thread_catalog_number", "thread_chart", "thread_details", "thread_weight", "thread_red", "thread_green", "thread_blue"]


def cases(tier):
    return 30000 if tier == "quick" else 200000


def template(rng, tag, names):
    ks = [rng.choice(names) for _ in range(rng.choice((0, 1, 2, 4)))]
    return "<%s%s>" % (tag, "".join("|%s={%s}" % (k.split(":")[0], k) for k in ks)) + rng.choice(("", "\n"))


def templates(rng):
    t = {}

    def maybe(k, names, p=0.7):
        if rng.random() < p:
            t[k] = template(rng, k, names)

    maybe("pattern_start", STATS)
    maybe("pattern_end", STATS)
    maybe("metadata_entry", ["metadata_index", "metadata_key", "metadata_value"] + STATS, 0.4)
    maybe("thread_entry", THREAD + STATS, 0.4)
    for k, names in (("document", DOC), ("color", COL), ("block", BLK)):
        maybe(k + "_start", names + STATS)
        maybe(k + "_end", names)
        if k != "document":
            maybe(k + "_join", names, 0.4)
    full = rng.random()
    if full < 0.75:
        t["segment"] = template(rng, "segment", ROWS + BLK[:4])
    if full < 0.1:
        keyed = {None: ("{cmd_str}", template(rng, "other", ROWS))}
        for c in rng.sample((STITCH, JUMP, TRIM, COLOR_CHANGE, END), 2):
            keyed[NAME_OF[c]] = template(rng, "keyed-" + NAME_OF[c], ROWS)
        t["segment"] = keyed
    p = 1.0 if full > 0.95 else rng.choice((0.0, 0.3, 0.8))
    for k in SINGLE:
        maybe(k, ROWS, p)
    maybe("stitch_first", ROWS, 0.25)
    maybe("stitch_last", ROWS, 0.25)
    maybe("segment_start", ROWS, 0.2)
    maybe("segment_join", ROWS, 0.1)
    maybe("segment_end", ROWS, 0.2)
    if rng.random() < 0.2:
        t["stitch_z_travel"] = rng.choice((0.0, 1.5, -3.0))
    return t


def expand(t, rows, threads, extras):
    """the text the templates stand for, from the documentation of the writer"""
    out, ev = [], []
    d = {}

    def put(key, tpl=None):
        tpl = t.get(key) if tpl is None else tpl
        ev.append(key)
        if tpl is not None:
            out.append(tpl.format_map(d))

    d.update(extras)
    for c, n in NAME_OF.items():
        d[n.lower() + "_count"] = 0
    for r in rows:
        d[NAME_OF[base(r[2])].lower() + "_count"] += 1
    if rows:
        l, tp, r_, b = min(r[0] for r in rows), min(r[1] for r in rows), max(r[0] for r in rows), max(r[1] for r in rows)
    else:
        l, tp, r_, b = float("inf"), float("inf"), -float("inf"), -float("inf")
    d.update(stitch_total=len(rows), thread_total=len(threads))
    for k, v in (("extents_left", l), ("extends_top", tp), ("extends_right", r_), ("extends_bottom", b), ("extends_width", r_ - l), ("extends_height", b - tp)):
        d[k] = v
        d[k + "_mm"] = v / 10.0
    put("pattern_start")
    if "metadata_entry" in t:
        for i, (k, v) in enumerate(extras.items()):
            d.update(metadata_index=i, metadata_key=k, metadata_value=v)
            put("metadata_entry")
    if "thread_entry" in t:
        for i, th in enumerate(threads):
            c = th["color"]
            d.update(thread_index=i, thread_color="#%06x" % c, thread_red=c >> 16, thread_green=c >> 8 & 255, thread_blue=c & 255)
            for k in ("description", "brand", "catalog_number", "chart", "details", "weight"):
                d["thread_" + k] = th.get(k)
            put("thread_entry")

    def has(c):
        return "segment" in t or any(t.get(k) is not None for k, v in SINGLE.items() if v == c)

    doc = col = blk = False
    nd = nc = nb = -1
    stitched = False
    lx = ly = px = py = 0
    z = 0.0
    for k, row in enumerate(rows):
        x, y, w = row
        c = base(w)
        th, nd_, order = split(w)
        d.update(index=k, cmd=c, cmd_str=NAME_OF[c], cmd_thread=th, cmd_needle=nd_, cmd_order=order, command=w)
        key = next((n for n, v in SINGLE.items() if v == c and n in t), "segment")
        if c == STITCH:
            last = True
            for q in rows[k + 1:]:
                if base(q[2]) == STITCH:
                    last = False
                    break
                if base(q[2]) in (TRIM, COLOR_CHANGE, END) and has(base(q[2])):
                    break
            if last and "stitch_last" in t:
                key = "stitch_last"
            if (not blk or not stitched) and "stitch_first" in t:
                key = "stitch_first"
        tpl = t.get(key)
        if tpl is None:
            continue
        if isinstance(tpl, dict):
            tpl = tpl.get(NAME_OF[c], tpl[None][1])
        ix, iy = int(round(x - px)), int(round(y - py))
        px, py = px + ix, py + iy
        d.update(x=x, y=y, z=z, dx=x - lx, dy=y - ly, idx=ix, idy=iy, ix=px, iy=py, last_x=lx, last_y=ly)
        for n in ("x", "y", "idx", "idy", "ix", "iy", "last_x", "last_y"):
            d["_" + n] = -d[n]
        lx, ly = x, y
        if c == STITCH:
            z += t.get("stitch_z_travel", 10.0)
        opens = []
        if not doc:
            doc, nd, nc = True, nd + 1, -1
            opens.append("document_start")
        if c != COLOR_CHANGE and not col:
            col, nc, nb = True, nc + 1, -1
            if nc:
                opens.append("color_join")
            opens.append("color_start")
        if c not in (COLOR_CHANGE, TRIM, NEEDLE_SET) and not blk:
            blk, nb, stitched = True, nb + 1, False
            if nb:
                opens.append("block_join")
            opens.append("block_start")
        if c == STITCH:
            stitched = True
        d.update(document_index=nd, document_index1=nd + 1, color_index=nc, color_index1=nc + 1, block_index=nb, block_index1=nb + 1)
        for o in opens:
            put(o)
        put("segment_start")
        put(key, tpl)
        put("segment_join")
        put("segment_end")
        if c in (TRIM, COLOR_CHANGE, END) and blk:
            blk = False
            put("block_end")
        if c in (COLOR_CHANGE, END) and col:
            col = False
            put("color_end")
        if c == END:
            doc = False
            put("document_end")
    if blk:
        put("block_end")
    if col:
        put("color_end")
    if doc:
        put("document_end")
    put("pattern_end")
    return "".join(out), ev


def case(i, rng, mon):
    from pyembroidery import EmbPattern, GenericWriter

    t = templates(rng)
    raw = rng.random() < 0.5
    mode = rng.choice(("int", "int", "half"))
    if raw and rng.random() < 0.6:
        w = gen.Walk(rng, 60, mode)
        src, opened = [], False
        for _ in range(rng.choice((0, 1, 2, 5, 12, 40))):
            c = rng.choice(CORE + [END] * (rng.random() < 0.15) + ([NEEDLE_SET] if not opened else []))
            if c in (STITCH, JUMP, SEQUIN_EJECT):
                w.step()
            opened = c not in (COLOR_CHANGE, END) if not (c == COLOR_CHANGE and not opened) else False
            src.append([w.x, w.y, pack(c, None, rng.randint(1, 9)) if c == NEEDLE_SET else c])
    else:
        src, _ = gen.design(rng, mode=mode, sequins=rng.random() < 0.3, speeds=rng.random() < 0.3, needles=rng.random() < 0.2, breaks=not raw, change="change" if raw else "mixed")
    specs = gen.threads(rng, max(1, sum(1 for r in src if base(r[2]) in (COLOR_CHANGE, COLOR_BREAK)) + 1), meta=True)
    extras = {"title": gen.text(rng, "mix"), "author": gen.text(rng, "print", inner_space=False)}
    s = dict(t)
    if raw:
        s["encode"] = False
        rows = [(r[0], r[1], r[2]) for r in src]
    else:
        rows = None  # the rows the encoder makes of it (their correctness is P12 to P19)
    mon.note(s, show(src, 60))
    p = gen.make_pattern(src, specs, extras)
    if rows is None:
        q = p.get_normalized_pattern({"sequin_contingency": SEQUIN_UTILIZE, "writes_speeds": True})
        rows = [tuple(r) for r in q.stitches]
        specs = [{"color": th.color, **{k: getattr(th, k) for k in ("description", "brand", "catalog_number", "chart", "details", "weight")}} for th in q.threadlist]
        specs = [{k: v for k, v in sp.items()} for sp in specs]
    if rng.random() < 0.3:
        fn = os.path.join(mon.scratch, "o.txt")
        EmbPattern.write_embroidery(GenericWriter, p, fn, s)
        with open(fn, "rb") as f:
            data = f.read()
    else:
        out = io.BytesIO()
        EmbPattern.write_embroidery(GenericWriter, p, out, s)
        data = out.getvalue()
    text = data.decode("utf8") if isinstance(data, bytes) else data
    want, ev = expand(t, rows, specs, extras)
    mon.count("segments", sum(1 for e in ev if e == "segment_start"))
    for k in ("block", "color", "document"):
        mon.count(k + "s", ev.count(k + "_start"))
        a, b = text.count("<%s_start" % k), text.count("<%s_end" % k)
        if k + "_start" in t and k + "_end" in t:
            mon.check(a == b, "unbalanced:" + k, "%d %s starts, %d ends" % (a, k, b), lambda: {"templates": t, "rows": show(rows, 60), "text": text[-600:]})
    if ev.count("color_start") >= 2 or ev.count("block_start") >= 2:
        mon.sig(ev)
        mon.sample({"templates": sorted(t), "rows": show(rows, 8), "text": text[:300]})
    if text != want:
        k = next((j for j, (a, b) in enumerate(zip(text, want)) if a != b), min(len(text), len(want)))
        lo = max(0, k - 120)
        tag = want[:k + 1].rfind("<")
        tag = want[tag + 1:].split("|")[0].split(">")[0] if tag >= 0 else "end"
        mon.fail("expansion:" + tag, "the text differs from the expansion of the templates at character %d" % k,
                 {"written": text[lo:k + 120], "expected": want[lo:k + 120], "templates": t, "rows": show(rows, 60)})
    mon.count("characters", len(want))
