import copy
import io

from lib import enc, fmts, gen
from lib.cmds import *

ID = "P20"
LEVEL = "exploration"
RULE = (
    "random designs and soups with threads and metadata; encode, write to every format under random options (encoding on and off), "
    "and derive stable/merged/trimmed patterns; deep snapshots of the source pattern and of the settings before and after, then the "
    "results are modified and the source compared again; non-trivial = the result differs from the source; distinct by (operation, kinds)"
)
ASSUMPTIONS = ["writers get as many threads as colour blocks", "operations documented as in-place are exempt"]
MIN_EVENTS = {"operations": 5000, "formats": 1000}


def cases(tier):
    return 8000 if tier == "quick" else 60000


def snap(p):
    return (
        [tuple(r) for r in p.stitches],
        [(id(t), sorted((k, repr(v)) for k, v in vars(t).items())) for t in p.threadlist],
        copy.deepcopy({k: v for k, v in p.extras.items()}),
        list(p.extras),
        p._previousX,
        p._previousY,
    )


def case(i, rng, mon):
    from pyembroidery import EmbPattern

    if rng.random() < 0.6:
        src, nb = gen.design(rng, span=rng.choice((20, 90)), mode=rng.choice(("int", "int", "half")), sequins=rng.random() < 0.2,
                             speeds=rng.random() < 0.2, box=3000)
    else:
        src = gen.soup(rng, rng.choice((3, 20, 50)), span=60, flags=rng.random() < 0.3, box=3000)
    core_only = rng.random() < 0.5
    if core_only:
        src = [r for r in src if base(r[2]) <= 0xC and r[2] != -1]
        if src and base(src[-1][2]) != END:
            src.append([src[-1][0], src[-1][1], END])
    specs = gen.threads(rng, rng.choice((0, 1, 120)) if rng.random() < 0.3 else 120, meta=True)
    extras = {"name": gen.text(rng), "author": gen.text(rng), "list": [1, {"a": 2}], "n": 5}
    p = gen.make_pattern(src, specs, extras)
    before = snap(p)
    ops = []
    s = enc.settings(rng)

    def op_norm():
        st = dict(s, nested=(1, 2))
        b = copy.deepcopy(st)
        q = p.get_normalized_pattern(st)
        mon.check(st == b, "settings-changed", "encoding changed the settings it was given", (b, st))
        return q

    def op_write():
        f = rng.choice(fmts.WRITABLE)
        st = fmts.random_settings(rng, f.ext)
        if rng.random() < 0.3:
            st["encode"] = core_only and rng.random() < 0.5
        if rng.random() < 0.2:
            st["tie_on"] = True
        b = copy.deepcopy(st)
        out = fmts.sink(f)
        mon.count("formats")
        ops[-1] = "write " + f.ext + (" plain" if not st.get("encode", True) else "")
        try:
            EmbPattern.write_embroidery(f.writer(), p, out, st)
        except Exception as e:
            mon.count("write_refused")
            ops[-1] += " refused " + type(e).__name__
        mon.check(st == b, "settings-changed", "writing %s changed the settings it was given" % f.ext, (b, st))
        return None

    def op_stable():
        return p.get_stable_pattern()

    def op_merge():
        return p.get_pattern_merge_jumps()

    def op_trim():
        return p.get_pattern_interpolate_trim(rng.choice((1, 3)))

    def op_copy():
        return p.copy() if rng.random() < 0.5 else copy.deepcopy(p)

    def op_add():
        return p + p

    def op_views():
        for v in (p.get_as_stitchblock, p.get_as_command_blocks, p.get_as_colorblocks, p.get_as_stitches, p.get_unique_threadlist,
                  p.get_singleton_threadlist):
            list(v())
        p.bounds(), p.count_stitches(), p.count_color_changes(), p.count_threads()
        return None

    for _ in range(rng.choice((1, 2, 4))):
        op = rng.choice((op_norm, op_write, op_write, op_write, op_stable, op_merge, op_trim, op_copy, op_add, op_views))
        ops.append(op.__name__)
        mon.note(op.__name__)
        q = op()
        mon.count("operations")
        after = snap(p)
        if after != before:
            which = [n for n, a, b in zip(("stitches", "threads", "metadata", "metadata order", "position", "position"), before, after) if a != b]
            mon.fail("source-changed", "%s changed the %s of the source pattern" % (ops[-1], ", ".join(which)),
                     {"operations": ops, "settings": s, "source": show(src, 40), "before": before, "after": after})
        if q is not None:
            for r in q.stitches:
                r[0] += 12345
                r[2] = TRIM
            q.stitches.append([1, 2, 3])
            q.threadlist[:] = q.threadlist[1:]
            q.extras["name"] = "changed"
            q.extras.pop("author", None)
            after = snap(p)
            if after != before:
                mon.fail("result-aliases-source", "modifying the result of %s changed the source pattern" % ops[-1],
                         {"operations": ops, "source": show(src, 40)})
    mon.sig(ops, [base(r[2]) for r in src])
    mon.sample({"operations": ops, "source": show(src, 12)})
