import io
import os
import struct
import zlib

from lib import fmts, gen, refenc
from lib.cmds import *
from lib.glyphs import GLYPHS

ID = "P33"
LEVEL = "exploration"
RULE = (
    "random designs (every command, threads, fractional positions, line widths 1 to 6, backgrounds, guides, shading, scaling) written as PNG to streams, files and by both entry points; oracle: an independent "
    "PNG decoder (signature, chunk order, lengths, CRC, header, inflate, filters), then every pixel: the design is drawn again line by line with an independent rasteriser that keeps, for each "
    "pixel, the colours it may have (pixels a line must cover, pixels at its edge that it may cover), everything else must be untouched background; non-trivial = at least 2 lines; distinct by lines and options"
)
ASSUMPTIONS = [
    "an image is the size of the design plus a margin of three; the painted opacity is 251; colours nearly black show as (35, 35, 35); a run of one single stitch draws nothing; even line widths may lie one pixel to either side",
    "a shaded line has 0.65 of its colour at either end and reaches the whole colour at 0.31 and 0.77 of its length (the built-in shades, clamped), in steps along its longer axis; ticks of 31 pixels with their label in mm (upright at the left, turned at the top) stand at every multiple of 50 more than 30 from an edge, 'mm' in the corner, over the lines",
]
MIN_EVENTS = {"lines": 15000, "pixels_painted": 500000, "images": 500, "pixels_shaded": 20000, "label_pixels": 20000}
SETTINGS = {"full_jump": True, "sequin_contingency": SEQUIN_STITCH}


def cases(tier):
    return 5000 if tier == "quick" else 60000


def decode(data):
    """width, height, rows of RGBA bytes, straight from the PNG specification"""
    if data[:8] != b"\x89PNG\r\n\x1a\n":
        raise ValueError("signature")
    pos, kinds, idat, head = 8, [], b"", None
    while pos < len(data):
        n, kind = struct.unpack(">I4s", data[pos:pos + 8])
        body = data[pos + 8:pos + 8 + n]
        if len(data) < pos + 12 + n:
            raise ValueError("chunk %r is cut off" % kind)
        if struct.unpack(">I", data[pos + 8 + n:pos + 12 + n])[0] != zlib.crc32(kind + body) & 0xFFFFFFFF:
            raise ValueError("CRC of %r" % kind)
        kinds.append(kind)
        if kind == b"IHDR":
            head = body
        elif kind == b"IDAT":
            idat += body
        elif kind == b"IEND":
            if n:
                raise ValueError("IEND with data")
            break
        elif not kind[0] & 0x20:
            raise ValueError("unknown critical chunk %r" % kind)
        pos += 12 + n
    if pos + 12 != len(data) or not kinds or kinds[0] != b"IHDR" or kinds[-1] != b"IEND" or kinds.count(b"IHDR") != 1:
        raise ValueError("chunks %r" % kinds)
    w, h, depth, ctype, comp, filt, inter = struct.unpack(">2I5B", head)
    if not w or not h or (depth, comp, filt, inter) != (8, 0, 0, 0) or ctype not in (2, 6):
        raise ValueError("header %r" % ((w, h, depth, ctype, comp, filt, inter),))
    z = zlib.decompressobj()
    raw = z.decompress(idat) + z.flush()
    if not z.eof or z.unused_data:
        raise ValueError("image data stream")
    bpp = 4 if ctype == 6 else 3
    stride = w * bpp
    if len(raw) != h * (stride + 1):
        raise ValueError("%d bytes of image data for %d x %d" % (len(raw), w, h))
    rows, prev = [], bytes(stride)
    for y in range(h):
        f = raw[y * (stride + 1)]
        line = bytearray(raw[y * (stride + 1) + 1:(y + 1) * (stride + 1)])
        if f > 4:
            raise ValueError("filter %d" % f)
        if f:
            for i in range(stride):
                a = line[i - bpp] if i >= bpp else 0
                b = prev[i]
                c = prev[i - bpp] if i >= bpp else 0
                if f == 1:
                    v = a
                elif f == 2:
                    v = b
                elif f == 3:
                    v = (a + b) // 2
                else:
                    p = a + b - c
                    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
                    v = a if pa <= pb and pa <= pc else b if pb <= pc else c
                line[i] = (line[i] + v) & 0xFF
        prev = bytes(line)
        rows.append(prev if bpp == 4 else b"".join(prev[i:i + 3] + b"\xff" for i in range(0, stride, 3)))
    return w, h, rows


def must_may(x0, y0, x1, y1, width):
    """pixels a line must cover, pixels it may cover"""
    must, may = set(), set()
    dx, dy = abs(x1 - x0), abs(y1 - y0)
    lo, hi = (-(width >> 1), width >> 1) if width & 1 else (-(width // 2) + 1, width // 2 - 1)
    out = (width >> 1)
    n = max(dx, dy)
    flat, steep = dx >= dy, dy >= dx
    for i in range(n + 1):
        # exact ideal position on the minor axis, as 2*n-ths
        if flat:
            x = x0 + (i if x1 >= x0 else -i)
            num = (y1 - y0) * i
            ks = nearest(y0, num, n)
            cover = [(x, k) for k in ks]
            axis = [(0, 1)]
            if steep:
                axis.append((1, 0))
        else:
            y = y0 + (i if y1 >= y0 else -i)
            num = (x1 - x0) * i
            ks = nearest(x0, num, n)
            cover = [(k, y) for k in ks]
            axis = [(1, 0)]
        sets = []
        for px, py in cover:
            for ax, ay in axis:
                sets.append({(px + o * ax, py + o * ay) for o in range(lo, hi + 1)})
                may.update((px + o * ax, py + o * ay) for o in range(-out, out + 1))
        must |= set.intersection(*sets)
    return must, may


def nearest(base_, num, n):
    """the whole number nearest to base + num / n; both when half way"""
    if not n:
        return (base_,)
    q, r = divmod(2 * num + n, 2 * n)
    return (base_ + q, base_ + q - 1) if r == 0 else (base_ + q,)


SHADES = ((0.0, 0.65), (0.4, 1.1), (0.5, 1.55), (0.7, 1.1), (1.0, 0.65))


def shade(i, n):
    """how bright a shaded line of n steps is at its step i"""
    if not n:
        return 1.0
    t = i / n
    for (t0, v0), (t1, v1) in zip(SHADES, SHADES[1:]):
        if t <= t1:
            return min(1.0, v0 + (v1 - v0) * (t - t0) / (t1 - t0))
    return None


def steps(q, line):
    """the steps of a line at which it can have painted a pixel, as shares of its length"""
    (x0, y0), (x1, y1) = line
    dx, dy = abs(x1 - x0), abs(y1 - y0)
    out = []
    if dx >= dy:
        out.append((abs(q[0] - x0), dx))
    if dy >= dx:
        out.append((abs(q[1] - y0), dy))
    return out


def shows(px, rgb, q, line, fancy):
    """does an RGB pixel show this thread colour (shaded as the line is here, if it is)"""
    black = max(rgb) < 10
    for c in ((rgb, (35, 35, 35)) if black else (rgb,)):
        for v in ([shade(*s) for s in steps(q, line)] if fancy else (1.0,)):
            if v is None:
                continue
            if v == 1.0:
                if tuple(px) == c:
                    return True
            elif all(abs(p - int(k * v)) <= 1 for p, k in zip(px, c)):
                return True
    return False


def rgb(c):
    return (c >> 16) & 255, (c >> 8) & 255, c & 255


def case(i, rng, mon):
    from pyembroidery import EmbPattern, write_png

    big = rng.random() < 0.1
    span = rng.choice((4, 20, 60)) if not big else 150
    box = rng.choice((6, 40, 120)) if not big else 320
    mode = rng.choice(("int", "int", "half"))
    if rng.random() < 0.7:
        src, nb = gen.design(rng, span=span, box=box, mode=mode, sequins=rng.random() < 0.3, speeds=rng.random() < 0.2)
    else:
        src = gen.soup(rng, rng.choice((0, 1, 3, 10, 40)), span=span, box=box, mode=mode)
    s = {}
    if rng.random() < 0.5:
        s["background"] = rng.choice((0xFFFFFF, 0x102030, "#C0FFEE", "white", "#000", "red", rng.randrange(1 << 24)))
    if rng.random() < 0.6:
        s["linewidth"] = rng.choice((1, 1, 2, 3, 4, 5, 6))
    if rng.random() < 0.25:
        s["fancy"] = rng.random() < 0.8
    if rng.random() < 0.3:
        s["guides"] = rng.random() < 0.8
    if rng.random() < 0.15:
        s["scale"] = rng.choice((0.5, 2))
    if rng.random() < 0.1:
        s["translate"] = (rng.randint(-99, 99), rng.randint(-99, 99))
    specs = gen.threads(rng, 120)
    mon.note(s, show(src, 60))
    p = gen.make_pattern(src, specs)
    how = rng.randrange(3)
    if how == 0:
        data = fmts.write("png", p, dict(s))
    elif how == 1:
        name_ = os.path.join(mon.scratch, "i.png")
        if rng.random() < 0.5:
            p.write(name_, **s)
        else:
            write_png(p, name_, dict(s))
        with open(name_, "rb") as f:
            data = f.read()
    else:
        out = io.BytesIO()
        EmbPattern.write_png(p, out, dict(s) if s or rng.random() < 0.5 else None)
        data = out.getvalue()

    def detail(**k):
        return dict(k, settings=s, rows=show(src, 60))

    try:
        w, h, rows = decode(data)
    except Exception as e:
        mon.fail("decode", "the file is a valid PNG: %s" % e, detail())
        return
    mon.count("images")
    es = dict(SETTINGS)
    for k in ("scale", "translate"):
        if k in s:
            es[k] = s[k]
    ref, used = refenc.encode([tuple(r) for r in src], len(specs), es)
    if not ref:
        mon.check((w, h) == (3, 3) or w < 4, "size-empty", "an empty design gives an empty image", detail(size=(w, h)))
        return
    x0, y0 = min(r[0] for r in ref), min(r[1] for r in ref)
    W, H = int(max(r[0] for r in ref) - x0) + 3, int(max(r[1] for r in ref) - y0) + 3
    mon.check((w, h) == (W, H), "size", "the image is %d x %d for a design of %d x %d" % (w, h, W - 3, H - 3), detail)
    if (w, h) != (W, H):
        return
    if "background" in s:
        b = {"white": 0xFFFFFF, "red": 0xFF0000, "#C0FFEE": 0xC0FFEE, "#000": 0}.get(s["background"], s["background"])
        bg = bytes(rgb(b)) + b"\xff"
    else:
        bg = b"\0\0\0\0"
    # the lines, in order, by block
    lines, block, last = [], 0, None
    for r in ref:
        if r[2] == STITCH:
            pt = (int(r[0] - x0) + 1, int(r[1] - y0) + 1)
            if last is not None:
                lines.append((last, pt, block))
            last = pt
        else:
            last = None
            if r[2] == COLOR_CHANGE:
                block += 1
    mon.count("lines", len(lines))
    width = s.get("linewidth", 3)
    cand = {}
    for a, b, blk in lines:
        must, may = must_may(a[0], a[1], b[0], b[1], width)
        c = rgb(specs[used[blk]]["color"]) if blk < len(used) else None
        c = (c, (a, b))
        for q in may:
            if q in must:
                cand[q] = [c]
            elif q in cand:
                if c not in cand[q]:
                    cand[q].append(c)
            else:
                cand[q] = [bg, c]
    if len(lines) >= 2:
        mon.sig(lines, s)
        mon.sample({"settings": s, "size": (w, h), "lines": len(lines), "rows": show(src, 10)})
    blank = [bytearray(r) for r in rows]
    guides, fancy = bool(s.get("guides")), bool(s.get("fancy"))
    labels, ticks = (guide_pixels(int(x0), int(y0), w, h) if guides else ({}, []))
    marks = set(labels).union(q for t in ticks for q in t[2])
    for (x, y), cs in cand.items():
        if not (0 <= x < w and 0 <= y < h):
            continue
        px = rows[y][4 * x:4 * x + 4]
        blank[y][4 * x:4 * x + 4] = bg
        if (x, y) in marks:
            continue
        mon.count("pixels_painted")
        if fancy and type(cs[0]) is tuple and len(cs) == 1 and cs[0][0]:
            mon.count("pixels_shaded")
        ok = any((px == bg) if type(c) is bytes else c[0] is None or (px[3] >= 245 and shows(px[:3], c[0], (x, y), c[1], fancy)) for c in cs)
        mon.check(ok, "pixel" if bg not in cs else "edge", "pixel %d,%d shows the line crossing it" % (x, y),
                  lambda: detail(pixel=tuple(px), allowed=[tuple(c) for c in cs], linewidth=width))
        if not ok:
            return
    for x, y in marks:
        blank[y][4 * x:4 * x + 4] = bg
    plain = bg * w
    for y in range(h):
        row = bytes(blank[y])
        if row != plain:
            x = next(x for x in range(w) if row[4 * x:4 * x + 4] != bg)
            mon.fail("stray", "pixel %d,%d is painted though no line is near it" % (x, y), detail(pixel=tuple(row[4 * x:4 * x + 4])))
            return
    mon.count("rows_clear", h)
    for axis, v, pts in ticks:
        mon.count("ticks")
        ok = all(max(rows[y][4 * x:4 * x + 3]) <= 40 and rows[y][4 * x + 3] > 200 for x, y in pts)
        mon.check(ok, "tick", "a tick stands at %s = %d" % ("xy"[axis], v), detail)
    ticked = {q for t in ticks for q in t[2]}
    for (x, y), darks in labels.items():
        if len(darks) != 1 or (x, y) in ticked:
            continue
        px = rows[y][4 * x:4 * x + 4]
        k = (9.0 - int(darks[0])) / 9.0
        if (x, y) in cand:
            ok = darks[0] != "0" or (max(px[:3]) == 0 and px[3] == 255)
        else:
            ok = all(abs(px[j] - bg[j] * (1 - k)) <= 1 for j in range(3)) and abs(px[3] - (k + (1 - k) * bg[3] / 255.0) * 255) <= 1
        mon.count("label_pixels")
        mon.check(ok, "label", "the labels of the guides stand where they belong (pixel %d,%d)" % (x, y), lambda: detail(pixel=tuple(px), darkness=darks[0]))
        if not ok:
            return


def guide_pixels(mx, my, w, h):
    """{pixel: the darkness of the label there}, [(axis, value, pixels of the tick)]"""
    labels, ticks = {}, []

    def text(x, y, string, rotate):
        for c in string:
            g = GLYPHS[c]
            for gy, row in enumerate(g):
                for gx, v in enumerate(row):
                    if v != "9":
                        q = (x + len(g) - gy + 1, y + gx + 2) if rotate else (x + gx + 2, y + gy + 2)
                        if 0 <= q[0] < w and 0 <= q[1] < h:
                            labels.setdefault(q, []).append(v)
            if rotate:
                y += 11
            else:
                x += 11

    text(0, 0, "mm", False)
    for axis, m, size in ((0, mx, w - 3), (1, my, h - 3)):
        for v in range(30, size - 30):
            if (v + m) % 50 == 0:
                pts = [(v + 1, o + 1) if axis == 0 else (o + 1, v + 1) for o in range(31)]
                ticks.append((axis, v + m, {q for q in pts if q[0] < w and q[1] < h}))
                text(v if axis == 0 else 0, 0 if axis == 0 else v, str((v + m) // 10), axis == 0)
    return labels, ticks
