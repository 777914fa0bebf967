"""Independent decoders of the machine formats: they check that a file is well formed and return what it says.

Every decoder returns a dict; "events" lists (x, y, kind, value) with kind one of stitch, jump, trim, trimjump, change, stop, end,
sequin_mode, slow+..., needle; positions are absolute in 1/10 mm, y down."""
import struct


class Bad(Exception):
    pass


def need(cond, message, *a):
    if not cond:
        raise Bad(message % a if a else message)


class Cursor:
    def __init__(self, data, at=0):
        self.d, self.at = data, at

    def take(self, n):
        need(self.at + n <= len(self.d), "the file ends inside a field at %d", self.at)
        b = self.d[self.at:self.at + n]
        self.at += n
        return b

    def expect(self, b, what="bytes"):
        at = self.at
        g = self.take(len(b))
        need(g == b, "%s at %d are %r instead of %r", what, at, g[:40], b[:40])

    def num(self, fmt):
        return struct.unpack(fmt, self.take(struct.calcsize(fmt)))[0]

    def u8(self):
        return self.num("B")

    def u16(self):
        return self.num("<H")

    def i16(self):
        return self.num("<h")

    def u32(self):
        return self.num("<I")

    def i32(self):
        return self.num("<i")

    def b16(self):
        return self.num(">H")

    def b32(self):
        return self.num(">i")

    def u24(self):
        b = self.take(3)
        return b[0] | b[1] << 8 | b[2] << 16


def s8(v):
    return v - 256 if v > 127 else v


# ---------------------------------------------------------------- DST
def ascii_fields(block):
    out = {}
    for line in block.split(b"\r"):
        if len(line) >= 3 and line[2:3] == b":":
            out.setdefault(line[:2].decode("latin1"), []).append(line[3:])
    return out


def dst(data):
    need(len(data) >= 512, "header of %d bytes", len(data))
    head = data[:512]
    end = head.find(b"\x1a")
    need(end > 0, "the header has no end mark")
    need(head[end + 1:] == b" " * (511 - end), "the header is not padded with spaces")
    fields = ascii_fields(head[:end])
    order = [line[:2] for line in head[:end].split(b"\r") if line]
    need(order[:12] == [b"LA", b"ST", b"CO", b"+X", b"-X", b"+Y", b"-Y", b"AX", b"AY", b"MX", b"MY", b"PD"], "header fields are %r", order[:12])
    body = data[512:]
    need(len(body) % 3 == 0, "%d bytes of records", len(body))
    x = y = 0
    ev = []
    bits = (("x", 0, 0, 1), ("x", 0, 1, -1), ("x", 0, 2, 9), ("x", 0, 3, -9), ("y", 0, 7, 1), ("y", 0, 6, -1), ("y", 0, 5, 9), ("y", 0, 4, -9),
            ("x", 1, 0, 3), ("x", 1, 1, -3), ("x", 1, 2, 27), ("x", 1, 3, -27), ("y", 1, 7, 3), ("y", 1, 6, -3), ("y", 1, 5, 27), ("y", 1, 4, -27),
            ("x", 2, 2, 81), ("x", 2, 3, -81), ("y", 2, 5, 81), ("y", 2, 4, -81))
    for k in range(0, len(body), 3):
        r = body[k:k + 3]
        need(not ev or ev[-1][2] != "end", "records after the end record")
        if r == b"\x00\x00\xf3":
            ev.append((x, y, "end", None))
            continue
        if r == b"\x00\x00\xc3":
            ev.append((x, y, "change", None))
            continue
        if r == b"\x00\x00\x43":
            ev.append((x, y, "sequin_mode", None))
            continue
        need(r[2] & 0x43 == 0x03, "record %r is not legal", r)
        d = {"x": 0, "y": 0}
        for ax, byte, bit, v in bits:
            if r[byte] >> bit & 1:
                d[ax] += v
        x += d["x"]
        y -= d["y"]
        ev.append((x, y, "jump" if r[2] & 0x80 else "stitch", None))
    return {"fields": fields, "events": ev}


# ---------------------------------------------------------------- EXP
def exp(data):
    c = Cursor(data)
    x = y = 0
    ev = []
    while c.at < len(data):
        a = c.u8()
        b = c.u8()
        if a != 0x80:
            x, y = x + s8(a), y - s8(b)
            ev.append((x, y, "stitch", None))
            continue
        dx, dy = c.u8(), c.u8()
        if b == 0x80:
            need((dx, dy) == (7, 0), "trim record ends %02x %02x", dx, dy)
            ev.append((x, y, "trim", None))
            continue
        x, y = x + s8(dx), y - s8(dy)
        need(b in (1, 4), "control %02x is not legal", b)
        ev.append((x, y, "jump" if b == 4 else "change", None))
    return {"events": ev}


# ---------------------------------------------------------------- JEF
def jef(data):
    c = Cursor(data)
    off = c.u32()
    need(c.u32() == 0x14, "flags are not 0x14")
    date = c.take(14)
    c.expect(b"\0\0")
    ncol, npts, hoop = c.u32(), c.u32(), c.u32()
    need(off == 0x74 + 8 * ncol, "stitch offset %#x for %d colours", off, ncol)
    half = [c.i32() for _ in range(4)]
    edges = [[c.i32() for _ in range(4)] for _ in range(4)]
    palette = [c.u32() for _ in range(ncol)]
    for _ in range(ncol):
        need(c.u32() == 0x0D, "colour kind is not 0x0D")
    need(c.at == off, "header of %d bytes, stitches at %d", c.at, off)
    x = y = 0
    ev = []
    points = 0
    while True:
        a, b = c.u8(), c.u8()
        if a != 0x80:
            points += 1
            x, y = x + s8(a), y - s8(b)
            ev.append((x, y, "stitch", None))
            continue
        if b == 0x10:
            points += 1
            ev.append((x, y, "end", None))
            break
        need(b in (1, 2), "control %02x is not legal", b)
        points += 2
        dx, dy = s8(c.u8()), s8(c.u8())
        x, y = x + dx, y - dy
        ev.append((x, y, "jump" if b == 2 else "change", None))
    need(c.at == len(data), "%d bytes after the end command", len(data) - c.at)
    need(points == npts, "point count %d, %d points in the data", npts, points)
    return {"date": date, "palette": palette, "hoop": hoop, "half": half, "edges": edges, "events": ev}


# ---------------------------------------------------------------- PEC
def pec_block(c, rest):
    """the PEC part; `rest` bytes follow it. Returns what it says."""
    start = c.at
    c.expect(b"LA:")
    label = c.take(16)
    c.expect(b"\r")
    c.expect(b" " * 12 + b"\xff\x00", "filler bytes")
    need(c.u8() == 6 and c.u8() == 38, "icon size")
    mark = c.d[c.at:c.at + 13]
    if mark == b"\x20\x20\x20\x20\x64\x20\x00\x20\x00\x20\x20\x20\xff":
        c.take(13)
        palette = []
    else:
        c.expect(b" " * 12, "filler bytes")
        palette = list(c.take(c.u8() + 1))
        need(all(0 < v < 65 for v in palette), "palette indexes %r", palette)
    c.expect(b" " * (463 - len(palette)), "filler bytes")
    need(c.at - start == 512, "header of %d bytes", c.at - start)
    block = c.at
    c.expect(b"\0\0")
    length = c.u24()
    c.expect(b"\x31\xff\xf0")
    width, height = c.u16(), c.u16()
    need((c.u16(), c.u16()) == (0x1E0, 0x1B0), "fixed sizes of the stitch block")
    ev = []
    x = y = 0
    want = 2
    while True:
        a = c.u8()
        if a == 0xFF:
            ev.append((x, y, "end", None))
            break
        if a == 0xFE:
            c.expect(b"\xb0")
            v = c.u8()
            need(v == want, "colour change byte %d instead of %d", v, want)
            want = 3 - want
            ev.append((x, y, "change", None))
            continue
        flags = 0
        d = []
        for k in range(2):
            if k:
                a = c.u8()
            if a & 0x80:
                v = (a & 0x0F) << 8 | c.u8()
                d.append(v - 4096 if v > 2047 else v)
                need(not flags or flags == a & 0x70 or not k, "flags of a move differ")
                flags |= a & 0x70
            else:
                d.append(a - 128 if a > 63 else a)
        x, y = x + d[0], y + d[1]
        need(flags in (0, 0x10, 0x20), "flags %#x of a move", flags)
        ev.append((x, y, {0: "stitch", 0x10: "jump", 0x20: "trimjump"}[flags], None))
    need(c.at - block == length, "stitch block length %d, %d bytes of stitches", length, c.at - block)
    graphics = []
    while c.at < len(c.d) - rest:
        graphics.append(c.take(228))
    return {"label": label, "palette": palette, "size": (width, height), "events": ev, "graphics": graphics}


def pec(data):
    c = Cursor(data)
    c.expect(b"#PEC0001")
    return pec_block(c, 0)


# ---------------------------------------------------------------- PES
def str8(c):
    return c.take(c.u8()).decode("utf8")


def pes_header6(c, out):
    need(c.u16() == 1, "hoop")
    c.expect(b"02")
    out["text"] = [str8(c) for _ in range(5)]
    want = (0, 0, 0x64, 0x64, 0, 0xC8, 0xC8, 0x64, 0x64, 0x64, 7, 0x13, 1, 1, 0, 100, 1, 0)
    got = tuple(c.u16() for _ in want)
    need(got == want, "page fields %r", got)
    need(c.u8() == 0, "image name")
    m = [c.num("<f") for _ in range(6)]
    need(m == [1, 0, 0, 1, 0, 0], "image matrix %r", m)
    for w in ("fill", "motif", "feather"):
        need(c.u16() == 0, w)
    out["threads"] = []
    for _ in range(c.u16()):
        t = {"catalog_number": str8(c)}
        r, g, b = c.take(3)
        t["color"] = r << 16 | g << 8 | b
        need(c.u8() == 0 and c.u32() == 0xA, "thread kind")
        t["description"], t["brand"], t["chart"] = str8(c), str8(c), str8(c)
        out["threads"].append(t)
    out["objects"] = c.u16()


def pes_sections(c, out):
    need(c.take(c.u16()) == b"CEmbOne", "CEmbOne")
    need([c.u16() for _ in range(8)] == [0] * 8, "block extents")
    out["matrix"] = [c.num("<f") for _ in range(6)]
    need((c.u16(), c.u16(), c.u16()) == (1, 0, 0), "block fields")
    out["block size"] = (c.u16(), c.u16())
    c.expect(b"\0" * 8)
    n = c.u16()
    need((c.u16(), c.u16()) == (0xFFFF, 0), "more blocks mark")
    need(c.take(c.u16()) == b"CSewSeg", "CSewSeg")
    out["sections"] = []
    for k in range(n):
        if k:
            need(c.u16() == 0x8003, "section %d does not follow a section end", k)
        flag, code, count = c.u16(), c.u16(), c.u16()
        need(flag in (0, 1), "section flag %d", flag)
        out["sections"].append((flag, code, [(c.i16(), c.i16()) for _ in range(count)]))
    out["colorlog"] = [(c.u16(), c.u16()) for _ in range(c.u16())]
    need((c.u16(), c.u16()) == (0, 0), "no more blocks mark")


def pes(data):
    c = Cursor(data)
    sig = c.take(8)
    need(sig in (b"#PES0001", b"#PES0060"), "signature %r", sig)
    out = {"version": 1 if sig == b"#PES0001" else 6}
    off = c.u32()
    out["offset"] = off
    if out["version"] == 1:
        if off == 0x16:
            c.expect(b"\0" * 10)
        else:
            need((c.u16(), c.u16()) == (1, 1), "hoop fields")
            if c.u16():
                need((c.u16(), c.u16()) == (0xFFFF, 0), "blocks mark")
                pes_sections(c, out)
            else:
                need((c.u16(), c.u16()) == (0, 0), "blocks mark")
        need(c.at == off, "the PEC offset is %d, the PES part ends at %d", off, c.at)
        out["pec"] = pec_block(c, 0)
        return out
    pes_header6(c, out)
    if out["objects"]:
        need((c.u16(), c.u16()) == (0xFFFF, 0), "blocks mark")
        pes_sections(c, out)
        need((c.u32(), c.u32()) == (0, 0), "node fields")
        for k in range(len(out["colorlog"])):
            need((c.u32(), c.u32()) == (k, 0), "node %d", k)
    else:
        rest = c.take(off - c.at) if off >= c.at else b"?"
        need(rest in (b"\0" * 4, b"\0" * 9), "blocks mark %r", rest)
    need(c.at == off, "the PEC offset is %d, the PES part ends at %d", off, c.at)
    return out, c


def pes6_tail(out, c, blocks, truncated):
    """the PEC part and the addendum of a version 6 file with this number of colour blocks"""
    rest = 2 + 128 + (0 if truncated else blocks * (0x90 + 3))
    if len(c.d) - rest < c.at:
        raise Bad("the file is too short for its addendum")
    out["pec"] = pec_block(c, rest)
    if not truncated:
        idx = [blocks - 1] + out["pec"]["palette"] if blocks else []
        c.expect(bytes(idx) + b" " * (128 - len(idx)), "addendum palette")
        c.expect(b"\0" * 0x90 * blocks, "addendum blanks")
        out["addendum"] = [c.u24() for _ in range(blocks)]
    else:
        c.expect(b"\xff" + b" " * 127, "addendum palette")
    c.expect(b"\0\0", "end")
    need(c.at == len(c.d), "%d bytes after the end", len(c.d) - c.at)
    return out


# ---------------------------------------------------------------- VP3
def vstr16(c):
    return c.take(c.b16()).decode("utf-16-be")


def vstr8(c):
    return c.take(c.b16()).decode("utf8")


def vp3(data):
    c = Cursor(data)
    c.expect(b"%vsm%\0")
    out = {"producer": vstr16(c)}
    c.expect(b"\0\2\0")
    n = c.b32()
    need(c.at + n == len(data), "file block of %d bytes, %d follow", n, len(data) - c.at)
    out["notes"] = vstr16(c)
    out["bounds"] = [c.b32() for _ in range(4)]  # right, -top, left, -bottom
    out["count"] = c.b32()
    need(c.u8() == 0, "byte")
    out["blocks8"] = c.u8()
    need((c.u8(), c.u8(), c.u8()) == (12, 0, 1), "file fields")
    c.expect(b"\0\3\0")
    n = c.b32()
    need(c.at + n == len(data), "design block of %d bytes, %d follow", n, len(data) - c.at)
    cx, cy = c.b32(), c.b32()
    c.expect(b"\0\0\0")
    out["extents"] = [c.b32() for _ in range(4)]
    out["size"] = (c.b32(), c.b32())
    out["center"] = (cx, cy)
    vstr16(c)
    c.expect(b"dd")
    need([c.b32() for _ in range(4)] == [4096, 0, 0, 4096], "matrix")
    c.expect(b"xxPP\1\0")
    vstr16(c)
    out["blocks"] = []
    out["trims"] = 0
    for _ in range(c.b16()):
        c.expect(b"\0\5\0")
        n = c.b32()
        end = c.at + n
        b = {"start": (c.b32(), c.b32())}
        c.expect(b"\1\0")
        r, g, bl = c.take(3)
        b["color"] = r << 16 | g << 8 | bl
        c.expect(b"\0\0\0\5\x28")
        b["catalog_number"], b["description"], b["brand"] = vstr8(c), vstr8(c), vstr8(c)
        b["shift"] = (c.b32(), c.b32())
        c.expect(b"\0\1\0")
        n = c.b32()
        send = c.at + n
        c.expect(b"\x0a\xf6\0")
        # absolute, in units: the y axis points up in the file
        x, y = (cx + b["start"][0]) / 100.0, -(cy + b["start"][1]) / 100.0
        b["from"] = (x, y)
        ev = []
        while c.at < send:
            a, d = c.u8(), c.u8()
            if a != 0x80:
                x, y = x + s8(a), y + s8(d)
                ev.append((x, y, "stitch", None))
            elif d == 3:
                ev.append((x, y, "trim", None))
            else:
                need(d == 1, "control %02x is not legal", d)
                dx, dy = c.num(">h"), c.num(">h")
                c.expect(b"\x80\x02")
                need(max(abs(dx), abs(dy)) > 127, "long form of a short stitch (%d, %d)", dx, dy)
                x, y = x + dx, y + dy
                ev.append((x, y, "stitch", None))
        need(c.at == send, "stitch block ends at %d instead of %d", c.at, send)
        need(c.u8() == 0, "byte")
        need(c.at == end, "colour block ends at %d instead of %d", c.at, end)
        b["events"] = ev
        out["blocks"].append(b)
    need(c.at == len(data), "%d bytes after the last block", len(data) - c.at)
    need(out["blocks8"] == len(out["blocks"]) & 255, "colour count %d for %d blocks", out["blocks8"], len(out["blocks"]))
    return out


# ---------------------------------------------------------------- XXX
def xxx(data):
    c = Cursor(data)
    c.expect(b"\0" * 0x17)
    out = {"count": c.u32()}
    c.expect(b"\0" * 0x0C)
    ncol = c.u32()
    c.expect(b"\0\0")
    out["size"] = (c.u16(), c.u16())
    out["last"] = (c.i16(), -c.i16())
    out["left"], out["bottom"] = -c.i16(), c.i16()
    need(c.at == 0x39, "header fields")
    c.expect(b"\0" * (0xF2 - 0x39))
    need(c.u16() == 0x20, "header field")
    c.expect(b"\0" * 8)
    end = c.u32()
    need(c.at == 0x100, "header of %d bytes", c.at)
    x = y = 0
    ev = []
    while c.at < end:
        a = c.u8()
        if a == 0x7D:
            dx, dy = c.i16(), c.i16()
            k = "stitch"
            need(max(abs(dx), abs(dy)) > 124, "long form of a short stitch")
        elif a == 0x7F:
            b = c.u8()
            need(b in (1, 3, 8), "control %02x is not legal", b)
            k = {1: "jump", 3: "trim", 8: "change"}[b]
            dx, dy = s8(c.u8()), s8(c.u8())
        else:
            need(a not in (0x7E,), "byte %02x starts a record", a)
            dx, dy = s8(a), s8(c.u8())
            k = "stitch"
        x, y = x + dx, y - dy
        ev.append((x, y, k, None))
    need(c.at == end, "stitches end at %d instead of %d", c.at, end)
    c.expect(b"\x7f\x7f\x02\x14", "end command")
    c.expect(b"\0\0")
    out["colors"] = []
    for _ in range(ncol):
        z, r, g, b = c.take(4)
        need(z == 0, "colour record")
        out["colors"].append(r << 16 | g << 8 | b)
    c.expect(b"\0" * 4 * max(0, 21 - ncol), "colour filler")
    c.expect(b"\0\xff\xff\xff\0\1", "colour end")
    need(c.at == len(data), "%d bytes after the colours", len(data) - c.at)
    out["events"] = ev
    return out


# ---------------------------------------------------------------- U01
def u01(data):
    c = Cursor(data)
    c.expect(b"0" * 0x80)
    out = {"bounds": [c.i16(), -c.i16(), c.i16(), -c.i16()]}  # left, bottom, right, top
    need(c.u32() == 0, "header field")
    out["count"] = c.u32()
    out["last"] = (c.i16(), -c.i16())
    c.expect(b"\0" * (0x100 - c.at), "header filler")
    x = y = 0
    ev = []
    while True:
        cmd, dy, dx = c.take(3)
        if cmd == 0xF8:
            need((dx, dy) == (0, 0), "end record")
            break
        need(cmd & 0x80, "record %02x is not legal", cmd)
        x += -dx if cmd & 0x20 else dx
        y += dy if cmd & 0x40 else -dy
        k = cmd & 0x1F
        names = {0: "stitch", 1: "jump", 2: "fast stitch", 3: "fast jump", 4: "slow stitch", 5: "slow jump", 7: "trim", 8: "stop"}
        if k in names:
            ev.append((x, y, names[k], None))
        else:
            need(9 <= k <= 0x17, "record %02x is not legal", cmd)
            ev.append((x, y, "needle", k - 8))
    need(c.at == len(data), "%d bytes after the end record", len(data) - c.at)
    out["events"] = ev
    return out


# ---------------------------------------------------------------- TBF
def tbf(data):
    need(len(data) >= 0x601, "header of %d bytes", len(data))
    need(data[:0x80] == b"3.00".ljust(0x80), "version field")
    f = ascii_fields(data[0x80:0x107])
    need(list(f)[:9] == ["LA", "ST", "CO", "+X", "-X", "+Y", "-Y", "AX", "AY"], "header fields %r", list(f))
    need(data[0x80:0x83] == b"LA:" and data[0x93:0x94] == b"\r", "LA field")
    i = data.find(b"DO:", 0x100)
    need(i == 0x107, "thread order at %#x", i)
    order = list(data[0x10A:0x20A])
    need(data[0x20A:0x20E] == b"\rDA:", "thread list")
    threads = []
    at = 0x20E
    while at + 5 <= 0x600 and data[at] == 0x45 and data[at + 4] == 0x20:
        threads.append(data[at + 1] << 16 | data[at + 2] << 8 | data[at + 3])
        at += 5
    pad = data[at:0x600]
    need(pad.replace(b" ", b"") == b"\r\x1a", "header filler %r", pad.replace(b" ", b""))
    need(data[0x600 - 1:0x600] in (b" ", b"\x1a"), "header end")
    c = Cursor(data, 0x600)
    x = y = 0
    ev = []
    n = 0
    while True:
        dx, dy = c.u8(), c.u8()
        if dx == 0x1A and c.at - 1 == len(data):
            break
        cmd = c.u8()
        x, y = x + s8(dx), y - s8(dy)
        need(cmd in (0x80, 0x90, 0x40, 0x86, 0x81, 0x8F), "record %02x is not legal", cmd)
        k = {0x80: "stitch", 0x90: "jump", 0x40: "stop", 0x86: "trim", 0x81: "needle", 0x8F: "end"}[cmd]
        v = None
        if k == "needle":
            v = order[n]
            n += 1
        ev.append((x, y, k, v))
        if k == "end":
            c.expect(b"\x1a", "terminal character")
            break
    need(c.at == len(data), "%d bytes after the end", len(data) - c.at)
    need(not any(order[n:]), "thread order has %d entries, %d changes", len([o for o in order if o]), n)
    return {"fields": f, "threads": threads, "events": ev}


CT0 = ((0, b"TAJ-DGML-PULSE  1-1A 2060(550.0\x81~400.0)S         2.00"), (0x60, b"DC1:100\rDC2:100\rDC3:  0\rDC4:N\rDC5:S\r"), (0x108, b"NS1:11"),
       (0x30D, b"\rRP0:N\rRP1:  \rRP2:  \rRP3:      \rRP4:      \rRP5: \rRP6: \rRP7: \rST1:"),
       (0x434, b"ST0:0\rAO1:0\rAO2:0\rAO3:0\rOF1:            \rOF2:            \rOF3:            \rNS2:"), (0x583, b"\rNS3:"), (0x778, b"\r\x1a"))


def ct0(data):
    """the control file beside a TBF file: fields at fixed offsets; returns the needles"""
    need(len(data) == 0x790, "control file of %#x bytes", len(data))
    for k, (at, text) in enumerate(CT0):
        end = CT0[k + 1][0] if k + 1 < len(CT0) else len(data)
        need(data[at:at + len(text)] == text, "field at %#x is %r", at, data[at:at + len(text)])
        if k not in (2, 4):
            need(data[at + len(text):end].strip(b" ") == b"", "field at %#x is %r", at, data[at:end])
    needles = data[0x10E:0x30D].rstrip(b" ")
    need(len(needles) % 2 == 0 and set(needles[1::2]) <= {0x31}, "needle list %r", needles)
    at = CT0[4][0] + len(CT0[4][1])
    need(data[at:0x583].rstrip(b" ") == b"0" * (len(needles) // 2), "second needle list %r", data[at:0x583])
    return [c - 0x30 for c in needles[::2]]


# ---------------------------------------------------------------- G-code
def gcode(data):
    out = {"comments": [], "events": [], "z": []}
    x = y = 0.0
    pending = False
    for line in data.decode("utf8").split("\n")[:-1]:
        if line.startswith("("):
            need(line.endswith(")") and "(" not in line[1:] and ")" not in line[:-1], "comment %r", line)
            need(not out["events"], "comment inside the program")
            out["comments"].append(line[1:-1])
            continue
        w = line.split(" ")
        if w[0] == "G00" and len(w) == 3:
            need(not pending and w[1][0] == "X" and w[2][0] == "Y", "line %r", line)
            x, y = float(w[1][1:]), float(w[2][1:])
            pending = True
        elif w[0] == "G00":
            need(pending and len(w) == 2 and w[1][0] == "Z", "line %r", line)
            out["z"].append(float(w[1][1:]))
            out["events"].append((x * 10, y * 10, "stitch", None))
            pending = False
        else:
            need(line in ("M00", "M30") and not pending, "line %r", line)
            need(not out["events"] or out["events"][-1][2] != "end", "lines after M30")
            out["events"].append((x * 10, y * 10, "change" if line == "M00" else "end", None))
    need(not pending, "move without a stitch")
    need(data.endswith(b"\n") or not data, "last line")
    return out


# ---------------------------------------------------------------- PMV
def pmv(data):
    c = Cursor(data)
    c.expect(b"#PMV0001" + b"." * 36)
    head = bytearray(56)
    for k in (0, 13, 35, 53):
        head[k] = 1
    c.expect(bytes(head), "fixed header")
    n, n2 = c.u16(), c.u16()
    need(n2 == 2 * n, "length %d for %d points", n2, n)
    pts = []
    x = 0
    for _ in range(n):
        a, b = c.u8(), c.u8()
        need(a < 64 and b < 32, "point %d %d", a, b)
        x += a - 64 if a > 31 else a
        pts.append((x, b - 32 if b > 15 else b))
    need((c.u16(), c.u16()) == (0, 256), "mark")
    c.expect(bytes((0, 0, 0, 0, 5, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 0)), "fixed part")
    need((c.u16(), c.u16()) == (256, 0), "mark")
    tables = []
    for _ in range(2):
        top, steps = c.u8(), c.u8()
        need(top == steps - 1, "table of %d steps, last %d", steps, top)
        t = [(c.u16(), c.u16()) for _ in range(steps)]
        need(t == sorted(t), "table is not ascending")
        tables.append(t)
    need(c.u16() == 0x12, "mark")
    c.expect(b"\0" * 16)
    need(c.at == len(data), "%d bytes after the end", len(data) - c.at)
    return {"points": pts, "tables": tables}
