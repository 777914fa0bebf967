ID = "P31"
LEVEL = "exploration"
RULE = (
    "random and clustered colour lists (lengths 0..300) against the PEC, JEF, SEW, HUS, SHV palettes and random palettes; oracle: brute "
    "force distances, greedy-assignment and distinctness conditions; non-trivial = at least 2 colours; distinct by assigned indexes"
)
ASSUMPTIONS = ["distance is the documented red-mean distance; any entry of minimal distance is accepted"]
MIN_EVENTS = {"assignments": 20000}


def cases(tier):
    return 2500 if tier == "quick" else 60000


def dist(a, b):
    r1, g1, b1 = a >> 16 & 255, a >> 8 & 255, a & 255
    r2, g2, b2 = b >> 16 & 255, b >> 8 & 255, b & 255
    m = int(round((r1 + r2) / 2))
    r, g, bl = r1 - r2, g1 - g2, b1 - b2
    return ((512 + m) * r * r >> 8) + 4 * g * g + ((767 - m) * bl * bl >> 8)


def palettes():
    from pyembroidery import EmbThreadHus, EmbThreadJef, EmbThreadPec, EmbThreadSew, EmbThreadShv

    return [("pec", EmbThreadPec.get_thread_set), ("jef", EmbThreadJef.get_thread_set), ("sew", EmbThreadSew.get_thread_set),
            ("hus", EmbThreadHus.get_thread_set), ("shv", EmbThreadShv.get_thread_set)]


def once(mon):
    for n, f in palettes():
        a, b = f(), f()
        mon.check(len(a) == len(b) and len(a) > 10 and a == b, "palette", "palette %s changes between calls" % n)
        mon.check(a is not b, "palette", "palette %s is shared between calls" % n)
        a[3] = None
        mon.check(f() == b, "palette", "palette %s is damaged by use" % n)
        mon.count("palettes")


def case(i, rng, mon):
    import sys

    from pyembroidery import EmbThread as T

    M = sys.modules["pyembroidery.EmbThread"]

    name, f = rng.choice(palettes())
    if rng.random() < 0.3:
        k = rng.choice((1, 2, 3, 8, 40))
        pal = [T(rng.randrange(1 << 24)) for _ in range(k)]
        for j in range(k):
            if rng.random() < 0.15 and k > 1:
                pal[j] = None
        if not any(pal):
            pal[0] = T(5)
        name = "random"
    else:
        pal = f()
    rgb = [None if t is None else t.color for t in pal]
    live = [j for j, c in enumerate(rgb) if c is not None]
    n = rng.choice((0, 1, 2, 3, 5, 12, 40, len(live), 300))
    mode = rng.choice(("random", "palette", "near", "few", "cluster"))
    cs = []
    centre = rng.randrange(1 << 24)
    pool = [rng.randrange(1 << 24) for _ in range(3)]
    for _ in range(n):
        if mode == "random":
            c = rng.randrange(1 << 24)
        elif mode == "palette":
            c = rgb[rng.choice(live)]
        elif mode == "near":
            c = rgb[rng.choice(live)] ^ (rng.choice((0, 1, 2)) << rng.choice((0, 8, 16)))
        elif mode == "few":
            c = rng.choice(pool)
        else:
            c = centre ^ rng.choice((0, 1, 2, 3, 0x100, 0x10000, 0x010101))
        cs.append(c)
    threads = [T(c) for c in cs]
    if rng.random() < 0.4:
        for t in threads:
            if rng.random() < 0.5:
                t.description = rng.choice("abc")
    mon.note(name, [hex(c) for c in cs[:40]])
    info = lambda: {"palette": name, "colours": [hex(c) for c in cs], "palette_rgb": [c if c is None else hex(c) for c in rgb]}
    # nearest
    for t, c in zip(threads, cs):
        for got in (t.find_nearest_color_index(pal), M.find_nearest_color_index(c, pal), M.find_nearest_color_index(t, pal)):
            mon.count("assignments")
            best = min(dist(c, rgb[j]) for j in live)
            if got is None or rgb[got] is None or dist(c, rgb[got]) != best:
                mon.fail("nearest", "colour %#x is assigned entry %r at distance %r, the minimum is %d" % (
                    c, got, None if got is None else dist(c, rgb[got]), best), info())
    mon.check(M.find_nearest_color_index(0, [None, None]) is None, "nearest-empty", "an empty palette gives an entry")
    got = M.build_palette(list(pal), threads)
    mon.check(len(got) == n and all(dist(c, rgb[g]) == min(dist(c, rgb[j]) for j in live) for c, g in zip(cs, got)), "palette-nearest",
              "build_palette does not assign the nearest entries", info)
    # unique
    got = M.build_unique_palette(list(pal), threads)
    mon.count("assignments", n)
    uniq = []
    for t in threads:
        if t not in uniq:
            uniq.append(t)
    ok = len(got) == n and all(g is not None and 0 <= g < len(pal) and rgb[g] is not None for g in got)
    mon.check(ok, "unique-valid", "unique palette gives invalid entries %r" % (got,), info)
    of = {}
    for c, g in zip(cs, got):
        mon.check(of.setdefault(c, g) == g, "unique-same", "colour %#x gets entries %r and %r" % (c, of[c], g), info)
    if len(uniq) <= len(live):
        mon.check(len(set(of.values())) == len(of), "unique-distinct", "different colours share an entry", info)
        if len(set(cs)) == len(uniq):
            used = set(of.values())
            for c, g in of.items():
                for j in live:
                    if dist(c, rgb[j]) < dist(c, rgb[g]) and j not in used:
                        mon.fail("unique-nearest", "colour %#x gets entry %d although the nearer entry %d is unused" % (c, g, j), info())
            if mode == "palette":
                for c, g in of.items():
                    mon.check(rgb[g] == c, "unique-exact", "palette colour %#x is assigned %#x" % (c, rgb[g]), info)
        mon.count("unique_lists")
    # non-repeating
    work = list(pal)
    got = M.build_nonrepeat_palette(work, threads)
    mon.check([None if t is None else t.color for t in work] == rgb, "nonrepeat-palette", "the palette was left damaged", info)
    mon.check(len(got) == n, "nonrepeat-valid", "%d entries for %d threads" % (len(got), n), info)
    if len(live) > 1:
        for k in range(n):
            g = got[k]
            mon.count("assignments")
            mon.check(g is not None and rgb[g] is not None, "nonrepeat-valid", "entry %r for %#x" % (g, cs[k]), info)
            ds = sorted(dist(cs[k], rgb[j]) for j in live)
            prev = got[k - 1] if k else None
            if k and threads[k] != threads[k - 1]:
                mon.check(g != prev, "nonrepeat", "different neighbouring threads %d and %d share entry %d" % (k - 1, k, g), info)
                best = min(dist(cs[k], rgb[j]) for j in live if j != prev)
                mon.check(dist(cs[k], rgb[g]) == min(best, ds[0]) or dist(cs[k], rgb[g]) == best, "nonrepeat-nearest",
                          "thread %d gets entry %d which is not the nearest allowed" % (k, g), info)
            else:
                mon.check(dist(cs[k], rgb[g]) == ds[0], "nonrepeat-nearest", "thread %d gets entry %d which is not the nearest" % (k, g), info)
    if n >= 2:
        mon.sig(name, got)
    mon.sample({"palette": name, "colours": [hex(c) for c in cs[:6]], "unique": M.build_unique_palette(list(pal), threads)[:6]})
