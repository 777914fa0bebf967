from lib import gen
from lib.csscolors import CSS

ID = "P30"
LEVEL = "exploration"
RULE = (
    "all colour names, all 3 digit hex strings, random 4/6/8 digit strings in both cases with and without #, numbers, component lists, "
    "dicts, threads; single-field differences for equality; oracle: own parser and the CSS keyword table; non-trivial = any colour but black"
)
ASSUMPTIONS = ["the explicit word 'random' and unknown names are outside the property"]
MIN_EVENTS = {"colours": 20000, "equality": 5000}
FIELDS = ("color", "description", "catalog_number", "details", "brand", "chart", "weight")


def cases(tier):
    return 8000 if tier == "quick" else 40000


def want_thread(mon, t, rgb, how):
    mon.count("colours")
    got = t.color
    if got & 0xFFFFFF != rgb:
        mon.fail("parse", "%s gives #%06x, expected #%06x" % (how, got & 0xFFFFFF, rgb))
    r, g, b = rgb >> 16, rgb >> 8 & 255, rgb & 255
    if (t.get_red(), t.get_green(), t.get_blue()) != (r, g, b):
        mon.fail("components", "%s: components %r, expected %r" % (how, (t.get_red(), t.get_green(), t.get_blue()), (r, g, b)))
    if t.hex_color().lower() != "#%02x%02x%02x" % (r, g, b):
        mon.fail("print", "%s prints as %s" % (how, t.hex_color()))
    if t.get_opaque_color() & 0xFFFFFFFF != 0xFF000000 | rgb and got == rgb:
        mon.fail("opaque", "%s: opaque colour is %#x" % (how, t.get_opaque_color()))


def once(mon):
    from pyembroidery import EmbThread
    from pyembroidery.EmbThread import color_distance_red_mean, color_hex, color_rgb

    for n, v in CSS.items():
        if n == "rebeccapurple":
            continue  # later than the documented SVG table
        for s in (n, n.upper(), n.title()):
            want_thread(mon, EmbThread(s), v, "EmbThread(%r)" % s)
        mon.check(EmbThread(n) == n and EmbThread(v) == n and EmbThread(n) == v, "equal-name", "thread %s does not equal its own name" % n)
        mon.sig(n)
    for v in range(4096):
        h = "%03x" % v
        rgb = int("".join(c + c for c in h), 16)
        want_thread(mon, EmbThread("#" + h), rgb, "EmbThread('#%s')" % h)
        want_thread(mon, EmbThread({"hex": h}), rgb, "hex %s" % h)
        mon.check(color_hex("#" + h.upper()) == rgb, "hex", "color_hex(%s)" % h)
    for r in range(0, 256, 5):
        for g in range(0, 256, 17):
            for b in range(256):
                if color_rgb(r, g, b) != r << 16 | g << 8 | b:
                    mon.fail("components", "color_rgb(%d,%d,%d)" % (r, g, b))
    for a in range(256):
        for d in range(256):
            for ch in range(3):
                p, q = [40, 40, 40], [40, 40, 40]
                p[ch], q[ch] = a, d
                x = color_distance_red_mean(*(p + q))
                if (x == 0) != (a == d) or x < 0:
                    mon.fail("distance", "distance %r between %r and %r" % (x, p, q))
                if x != color_distance_red_mean(*(q + p)):
                    mon.fail("distance", "distance of %r and %r is not symmetric" % (p, q))
    mon.count("distances", 65536 * 3)


def case(i, rng, mon):
    from pyembroidery import EmbPattern, EmbThread

    for _ in range(30):
        rgb = rng.choice((rng.randrange(1 << 24), rng.randrange(256), rng.randrange(256) << 8, rng.randrange(256) << 16))
        r, g, b = rgb >> 16, rgb >> 8 & 255, rgb & 255
        h = "%06x" % rgb
        if rng.random() < 0.5:
            h = h.upper()
        elif rng.random() < 0.3:
            h = "".join(rng.choice((c, c.upper())) for c in h)
        base = {"description": "d%d" % rng.randrange(99)}
        ways = [
            ("'#%s'" % h, lambda: EmbThread("#" + h)),
            ("'#%sff'" % h, lambda: EmbThread("#" + h + "%02x" % rng.randrange(256))),
            ("int", lambda: EmbThread(rgb)),
            ("dict hex", lambda: EmbThread(dict(base, hex=h))),
            ("dict hex #", lambda: EmbThread(dict(base, hex="#" + h))),
            ("dict color #", lambda: EmbThread(dict(base, color="#" + h))),
            ("dict color int", lambda: EmbThread(dict(base, color=rgb))),
            ("dict color tuple", lambda: EmbThread(dict(base, color=(r, g, b)))),
            ("dict color list", lambda: EmbThread(dict(base, color=[r, g, b]))),
            ("dict rgb", lambda: EmbThread(dict(base, rgb=rng.choice((rgb, (r, g, b), "#" + h))))),
            ("thread", lambda: EmbThread(EmbThread(rgb))),
        ]
        for how, f in ways:
            want_thread(mon, f(), rgb, "EmbThread(%s %s)" % (how, h))
        h3 = "%04x" % rng.randrange(1 << 16)
        want_thread(mon, EmbThread("#" + h3), int("".join(c + c for c in h3[:3]), 16), "EmbThread('#%s')" % h3)
        t = EmbThread()
        t.set_color(r, g, b)
        want_thread(mon, t, rgb, "set_color")
        t = EmbThread("red")
        t.set_hex_color(rng.choice(("#", "")) + h)
        want_thread(mon, t, rgb, "set_hex_color")
        want_thread(mon, EmbThread(t.hex_color()), rgb, "printed and parsed")
        p = EmbPattern()
        for x in (rgb, "#" + h, {"color": rgb}, EmbThread(rgb)):
            p.add_thread(x)
            want_thread(mon, p.threadlist[-1], rgb, "add_thread(%r)" % (x,))
        mon.check(len(p.threadlist) == 4, "add-thread", "4 threads added, %d present" % len(p.threadlist))
        # a thread that had other contents, set again
        old = dict(color=rng.randrange(1 << 24), description="old", catalog_number="old", details="old", brand="old", chart="old", weight="old")
        for how, v, texts in (("#", "#" + h, {}), ("int", rgb, {}), ("color int", {"color": rgb}, {}), ("rgb tuple", {"rgb": (r, g, b)}, {}),
                              ("color text", {"color": "#" + h, "brand": "new", "description": ""}, {"brand": "new", "description": ""}),
                              ("hex", {"hex": h, "weight": "7"}, {"weight": "7"}), ("rgb 0", {"rgb": rgb, "catalog": "new"}, {"catalog_number": "new"}),
                              ("thread", EmbThread(rgb, brand="new"), dict.fromkeys(FIELDS[1:], None) | {"brand": "new"})):
            t = EmbThread(**{("thread" if k == "color" else k): x for k, x in old.items()})
            t.set(v)
            want_thread(mon, t, rgb, "set(%s %s) on a thread that was %06x" % (how, h, old["color"]))
            for f in FIELDS[1:]:
                w = texts.get(f, "old")
                mon.check(getattr(t, f) == w, "set-again", "set(%s) leaves %s = %r, expected %r" % (how, f, getattr(t, f), w))
        # the bits above the colour (opacity) are no part of it
        o = EmbThread(0xFF000000 | rgb)
        want_thread(mon, o, rgb, "opaque %s" % h)
        n = EmbThread(rgb)
        mon.check(o == n and n == o and not o != n and hash(o) == hash(n) and len({o, n}) == 1, "equal-opaque",
                  "a thread and the same with opacity bits are not the same thread: %#x %#x" % (o.color, n.color))
        mon.check(o == rgb and n == 0xFF000000 | rgb and o == "#" + h, "equal-number", "a thread does not equal its own colour number %s" % h)
        if rgb:
            mon.sig(rgb >> 4)
    # content equality and hash
    spec = gen.threads(rng, 1, meta=True)[0]
    for f in FIELDS:
        spec.setdefault(f, None)
    kw = {k: v for k, v in spec.items() if k != "color"}
    a, b = EmbThread(spec["color"], **kw), EmbThread(spec["color"], **kw)
    c = EmbThread(a)
    d = EmbThread({k: v for k, v in spec.items() if v is not None})
    for x in (b, c, d):
        mon.count("equality")
        mon.check(a == x and x == a and not a != x and hash(a) == hash(x), "equal", "threads of equal content differ: %r %r" % (a, x))
    for f in FIELDS:
        for v in ((spec["color"] ^ (1 << rng.randrange(24)),) if f == "color" else (gen.text(rng) + "!", "", None)):
            if v == spec[f]:
                continue
            b = EmbThread(a)
            setattr(b, f, v)
            mon.count("equality")
            mon.check(a != b and b != a and not a == b, "unequal", "threads differing only in %s compare equal: %r %r" % (f, a, b))
    e = eval(repr(a), {"EmbThread": EmbThread}) if all("'" not in (v or "") and "\\" not in (v or "") for v in kw.values()) else a
    mon.check(e == a, "repr", "repr of a thread does not rebuild it: %r" % a)
    for other in (None, 3.5, [], object()):
        mon.check(a != other, "foreign", "a thread equals %r" % (other,))
    keys = {"name": "description", "desc": "description", "manufacturer": "brand", "id": "catalog_number", "catalog": "catalog_number",
            "details": "details", "chart": "chart", "weight": "weight", "brand": "brand", "description": "description",
            "catalog_number": "catalog_number"}
    for k, f in keys.items():
        t = EmbThread({k: "value of " + k})
        for g in FIELDS[1:]:
            w = "value of " + k if g == f else None
            mon.check(getattr(t, g) == w, "dict-key", "thread dict key %s sets %s to %r, expected %r" % (k, g, getattr(t, g), w))
    mon.sample({"thread": repr(a)})
