"""The formats, as documented: extensions, sinks, options."""
import importlib
import io


class Fmt:
    def __init__(self, ext, module, wtext=False, rtext=False, read=None, options=None):
        self.ext, self.module, self.read, self.options = ext, module, read, options or {}
        self.wtext, self.rtext = wtext, rtext  # text or binary streams

    def writer(self):
        return importlib.import_module("pyembroidery." + self.module)

    def reader(self):
        return importlib.import_module("pyembroidery." + self.read)


W = [
    Fmt("dst", "DstWriter", read="DstReader", options={"version": ("default", "extended"), "trim_at": (3, 4, 5, 6)}),
    Fmt("pec", "PecWriter", read="PecReader"),
    Fmt("pes", "PesWriter", read="PesReader", options={"version": ("1", "6", "1t", "6t", 1, 6), "pes version": (1, 6)}),
    Fmt("exp", "ExpWriter", read="ExpReader"),
    Fmt("vp3", "Vp3Writer", read="Vp3Reader"),
    Fmt("jef", "JefWriter", read="JefReader", options={"trims": (True, False), "trim_at": (3, 4, 5, 7)}),
    Fmt("u01", "U01Writer", read="U01Reader"),
    Fmt("xxx", "XxxWriter", read="XxxReader"),
    Fmt("tbf", "TbfWriter", read="TbfReader"),
    Fmt("csv", "CsvWriter", rtext=True, read="CsvReader", options={"version": ("default", "delta", "full")}),
    Fmt("json", "JsonWriter", wtext=True, read="JsonReader"),
    Fmt("gcode", "GcodeWriter", read="GcodeReader", options={"stitch_z_travel": (5.0, 10.0)}),
    Fmt("pmv", "PmvWriter", read="PmvReader"),
    Fmt("svg", "SvgWriter"),
    Fmt("png", "PngWriter", options={"background": (0xFFFFFF,), "linewidth": (1, 3), "guides": (True, False), "fancy": (True, False)}),
    Fmt("txt", "TxtWriter", options={"version": ("default", "embroidermodder"), "mimic": (True,)}),
    Fmt("col", "ColWriter", rtext=True, read="ColReader"),
    Fmt("edr", "EdrWriter", read="EdrReader"),
    Fmt("inf", "InfWriter", read="InfReader"),
]
BY = {f.ext: f for f in W}
WRITABLE = W
MACHINE = [BY[e] for e in ("dst", "pec", "pes", "exp", "vp3", "jef", "u01", "xxx", "tbf")]


def sink(f):
    return io.StringIO() if f.wtext else io.BytesIO()


def source(f, data):
    if f.rtext:
        return io.StringIO(data if isinstance(data, str) else data.decode("utf8"), newline="")
    return io.BytesIO(data.encode("utf8") if isinstance(data, str) else data)


def random_settings(rng, ext):
    f = BY[ext]
    s = {}
    for k, vs in f.options.items():
        if rng.random() < 0.4:
            s[k] = rng.choice(vs)
    if ext == "jef":
        s["date"] = "20200102030405"
    return s


def write(ext, pattern, settings=None):
    """the bytes (or text) the library writes"""
    from pyembroidery import EmbPattern

    f = BY[ext]
    out = sink(f)
    EmbPattern.write_embroidery(f.writer(), pattern, out, settings)
    return out.getvalue()


def read(ext, data, settings=None):
    from pyembroidery import EmbPattern

    f = BY[ext]
    return EmbPattern.read_embroidery(f.reader(), source(f, data), settings)
