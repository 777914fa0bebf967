"""Running the real encoder next to the reference encoder."""
from . import gen, refenc
from .cmds import *

LIMITS = (5, 10, 31, 70, 121, 124, 127, 255, 2047)


def settings(rng, **fixed):
    s = {}
    r = rng.random()
    if r < 0.5:
        s["max_stitch"] = s["max_jump"] = rng.choice(LIMITS)
    elif r < 0.9:
        if rng.random() < 0.8:
            s["max_stitch"] = rng.choice(LIMITS)
        if rng.random() < 0.8:
            s["max_jump"] = rng.choice(LIMITS)
    opts = {
        "full_jump": (True, False),
        "round": (True, False),
        "explicit_trim": (True, False),
        "thread_change_command": (COLOR_CHANGE, NEEDLE_SET, STOP),
        "sequin_contingency": (SEQUIN_JUMP, SEQUIN_UTILIZE, SEQUIN_STITCH, SEQUIN_REMOVE),
        "tie_on": (True, False, TIE_ON_SMALL, TIE_ON_NONE),
        "tie_off": (True, False, TIE_OFF_SMALL, TIE_OFF_NONE),
        "needle_count": (1, 2, 3, 5, 9, 15),
        "writes_speeds": (True, False),
        "long_stitch_contingency": (LONG_NONE, LONG_SEW_TO, LONG_JUMP_NEEDLE),
    }
    for k, vs in opts.items():
        if k in fixed:
            continue
        if rng.random() < 0.5:
            s[k] = rng.choice(vs)
    for k, v in fixed.items():
        if v is not None:
            s[k] = v
    return s


class Run:
    """one encode: source rows, settings, what the code emitted, what the reference emits"""

    def __init__(self, src, specs, s, extras=None, how="normalized"):
        self.src = [tuple(r) for r in src]
        self.specs = specs
        self.settings = s
        self.source = gen.make_pattern(src, specs, extras)
        if how == "normalized":
            self.q = self.source.get_normalized_pattern(dict(s))
        else:
            from pyembroidery.EmbEncoder import Transcoder
            from pyembroidery import EmbPattern

            self.q = Transcoder(dict(s)).transcode(self.source, EmbPattern())
        self.real = [(r[0], r[1], base(r[2])) for r in self.q.stitches]
        self.raw = [r[2] for r in self.q.stitches]
        self.ref, self.used = refenc.encode(self.src, len(specs), s)

    def detail(self, around=None):
        lo, hi = 0, 70
        if around is not None:
            lo, hi = max(0, around - 12), around + 12
        return {
            "settings": self.settings,
            "source": show(self.src, 60),
            "first_difference_at": around,
            "emitted": show(self.real[lo:hi]),
            "expected": ["%s @ %r,%r" % (name(o[2]), o[0], o[1]) for o in self.ref[lo:hi]],
        }


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same_row(u, v, tol=1e-6):
    return u[2] == v[2] and near(u[0], v[0], tol) and near(u[1], v[1], tol)


def first_diff(real, ref, eq=same_row):
    for i, (u, v) in enumerate(zip(real, ref)):
        if not eq(u, v):
            return i
    if len(real) != len(ref):
        return min(len(real), len(ref))
    return None


def compare(mon, run, key, what, keep=None, eq=same_row):
    """events (optionally only the kinds in keep) must be the expected ones, in order"""
    a = [r for r in run.real if keep is None or r[2] in keep]
    b = [r[:3] for r in run.ref if keep is None or r[2] in keep]
    mon.count("events", len(run.real))
    mon.count("compared", len(b))
    d = first_diff(a, b, eq)
    if d is not None:
        u = a[d] if d < len(a) else None
        v = b[d] if d < len(b) else None
        mon.fail(
            key,
            "%s: event %d is %s, expected %s"
            % (what, d, u and "%s @ %r,%r" % (name(u[2]), u[0], u[1]), v and "%s @ %r,%r" % (name(v[2]), v[0], v[1])),
            run.detail(d if keep is None else None),
        )
