import io

from lib import fmts, gen, refmk, rt
from lib.cmds import *

ID = "P10"
LEVEL = "fault_enumeration"
FORMATS = sorted(k for k in refmk.BUILDERS)
WRITTEN = ("dst", "exp", "jef", "pec", "pes", "vp3", "xxx", "u01", "tbf", "gcode", "pmv")
RULE = (
    "files of %d format variants from independent encoders, plus files the library writes, cut at every byte of their stitch data (at 60 random and record boundary positions "
    "when longer than 400 bytes); oracle: the records encoded completely before the cut, in order (after the documented trim inference), or an error; "
    "non-trivial = a cut inside the stitch data whose result has at least one stitch; distinct by file and cut" % len(FORMATS))
ASSUMPTIONS = [
    "the cut falls within the stitch data; headers are whole",
    "an ordinary exception counts as a refusal (formats whose headers or colours lie behind the stitches refuse)",
    "a control record that is cut may already be given when it holds no position; the end command is not part of the comparison",
]
MIN_EVENTS = {"cuts": 200000, "prefixes": 150000, "rows": 2000000}
CPU_LIMIT = 40.0


def cases(tier):
    n = len(FORMATS) + len(WRITTEN)
    return 90 * n if tier == "quick" else 1800 * n


def rows_of(p):
    return [(r[0], r[1], base(r[2]), split(r[2])[1]) for r in p.stitches]


def same(a, b, tol):
    return len(a) == len(b) and all(
        u[2:] == v[2:] and abs(u[0] - v[0]) <= tol * max(1, abs(v[0])) and abs(u[1] - v[1]) <= tol * max(1, abs(v[1]))
        for u, v in zip(a, b))


def positions(rng, lo, hi, marks):
    if hi - lo <= 400:
        return list(range(lo, hi + 1))
    edge = [m[0] for m in marks]
    out = {lo, hi, hi - 1}
    for _ in range(40):
        out.add(rng.randint(lo, hi))
        out.add(max(lo, min(hi, rng.choice(edge) + rng.choice((-1, 0, 0, 1)))))
    return sorted(out)


def read(f, data, settings):
    from pyembroidery import EmbPattern
    import pyembroidery as pe

    p = EmbPattern()
    for t in pe.supported_formats():
        if f in (t.get("extensions") or (t["extension"],)):
            t["reader"].read(io.BytesIO(data), p, settings)
            return p
    raise AssertionError(f)


def show_(rs):
    return ["%s @ %r,%r" % (name(r[2]), r[0], r[1]) for r in rs]


def case(i, rng, mon):
    k = i % (len(FORMATS) + len(WRITTEN))
    if k < len(FORMATS):
        built(refmk.make(FORMATS[k], rng), rng, mon)
    else:
        written(WRITTEN[k - len(FORMATS)], rng, mon)


def attempt(ext, data, settings, mon):
    mon.count("cuts")
    try:
        return rows_of(read(ext, data, settings))
    except Exception as e:
        mon.count("refusals")
        mon.count("refused:" + ext)
        return None


def built(f, rng, mon):
    raw = getattr(f, "raw_rows", f.rows)
    body = [r for r in raw if r[2] != END]
    if not f.marks:
        return
    first = f.marks[0][0]
    last = f.marks[-1][0]
    for cut in positions(rng, first, last, f.marks):
        if hasattr(f, "cut"):
            lo, hi = f.cut(cut)
        else:
            lo = max([n for o, n in f.marks if o <= cut])
            hi = lo
            while hi < len(body) and hi < min([n for o, n in f.marks if o > cut] or [0]) and body[hi][2] not in (STITCH, JUMP, SEQUIN_EJECT):
                hi += 1
        rows = attempt(f.ext, f.data[:cut], f.settings, mon)
        if rows is None:
            continue
        rows = [r for r in rows if r[2] != END]
        ok = False
        want = None
        for n in range(lo, hi + 1):
            part = body[:n]
            if hasattr(f, "infer"):
                part = rt.trims_inferred(part, *f.infer)
            want = want or part
            if same(rows, part, f.tol):
                ok = True
                break
        mon.count("prefixes")
        mon.count("rows", len(rows))
        mon.check(ok, "prefix:" + f.format, "reading a %s file cut off at byte %d (of %d) gives the records before the cut" % (f.format, cut, len(f.data)),
                  lambda: {"settings": f.settings, "read": show_(rows)[-12:], "encoded": show_(want)[-12:], "counts": (len(rows), len(want), lo, hi),
                           "around": f.data[max(0, cut - 12):cut].hex() + "|" + f.data[cut:cut + 12].hex()})
        if len(rows) > 1:
            mon.sig(f.data, cut)
    mon.sample({"format": f.format, "bytes": len(f.data), "stitch data": [first, last], "rows": len(body)})


def written(ext, rng, mon):
    """no cut of a file the library wrote gives needle points the whole file does not have"""
    d, nb = gen.design(rng, span=rng.choice((10, 60)), mode="int", stops=ext not in ("pec", "pes"), box=3000)
    p = gen.make_pattern(d, gen.threads(rng, nb))
    s = fmts.random_settings(rng, ext)
    s.pop("linewidth", None)
    data = fmts.write(ext, p, s)
    rset = {"trims": False, "trim_at": None, "trim_distance": None, "clipping": False} if ext in ("dst", "jef") else None
    if ext == "dst":
        rset["trim_at"] = 10 ** 9
    whole = [r for r in rows_of(fmts.read(ext, data, rset)) if r[2] != END]
    lo = {"dst": 512, "exp": 0, "u01": 0x100, "tbf": 0x600, "xxx": 0x100, "gcode": 0, "jef": int.from_bytes(data[:4], "little"), "pmv": 0x64}.get(ext, len(data) // 2)
    for cut in positions(rng, lo, len(data), [(lo, 0)]):
        rows = attempt(ext, data[:cut], rset, mon)
        if rows is None:
            continue
        rows = [r for r in rows if r[2] != END]
        mon.count("prefixes")
        mon.count("rows", len(rows))
        mon.check(rows == whole[: len(rows)], "prefix-written:" + ext, "a %s file cut off at byte %d (of %d) reads as the start of the whole file" % (ext, cut, len(data)),
                  lambda: {"settings": s, "read": show_(rows)[-12:], "whole": show_(whole[:len(rows) + 4])[-16:], "counts": (len(rows), len(whole))})
        if rows:
            mon.sig(data, cut)
