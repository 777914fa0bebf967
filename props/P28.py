import copy

from lib import gen
from lib.cmds import *

ID = "P28"
LEVEL = "exploration"
RULE = (
    "random patterns copied every documented way; equality both ways, then one random change to one side (row value, row added or removed, "
    "thread field, thread order, metadata) with equality and independence checked after it; non-trivial = pattern has rows and threads"
)
ASSUMPTIONS = ["a shallow copy may share thread objects, a deep copy shares nothing mutable"]
MIN_EVENTS = {"copies": 2500, "changes": 10000}


def cases(tier):
    return 80000 if tier == "quick" else 300000


def snap(p):
    return [tuple(r) for r in p.stitches], [dict(vars(t)) for t in p.threadlist], copy.deepcopy(dict(p.extras)), p._previousX, p._previousY


def case(i, rng, mon):
    from pyembroidery import EmbPattern, EmbThread

    src = gen.soup(rng, rng.choice((0, 1, 3, 12, 40)), mode=rng.choice(("int", "half")), flags=rng.random() < 0.3)
    specs = gen.threads(rng, rng.choice((0, 1, 3)), meta=True, distinct_adjacent=False)
    extras = {gen.text(rng): gen.text(rng, "mix") for _ in range(rng.choice((0, 1, 3)))}
    p = gen.make_pattern(src, specs, extras)
    if rng.random() < 0.3:
        p.extras["nested"] = {"a": [1, 2]}
    twin = gen.make_pattern(src, specs, {k: copy.deepcopy(v) for k, v in p.extras.items()})
    mon.check(p == twin and twin == p and not p != twin, "equal", "patterns of equal content compare unequal", lambda: show(src, 30))
    how = rng.choice(("copy()", "copy.copy", "deepcopy", "EmbPattern(p)"))
    before = snap(p)
    q = {"copy()": lambda: p.copy(), "copy.copy": lambda: copy.copy(p), "deepcopy": lambda: copy.deepcopy(p), "EmbPattern(p)": lambda: EmbPattern(p)}[how]()
    mon.count("copies")
    mon.check(isinstance(q, EmbPattern) and q is not p, "copy", "%s gives %r" % (how, type(q)))
    mon.check(q == p and p == q and not q != p and snap(q) == before and snap(p) == before, "copy-equal", "%s is not equal to its source" % how,
              lambda: (snap(p), snap(q)))
    # the pen of the copy continues where the source's was
    a, b = p.copy(), q.copy()
    a.stitch(3, 4), b.stitch(3, 4)
    mon.check(a == b, "pen", "%s continues sewing elsewhere" % how)
    for x in (None, 5, "x", [], src):
        mon.check(p != x and not p == x, "foreign", "a pattern equals %r" % (x,))
    for _ in range(5):
        x, y = rng.choice(((p, q), (q, p)))
        frozen = snap(y)
        op = rng.choice(("row", "row", "append", "del", "thread", "threadlist", "swap", "meta", "metatype", "metadel", "nested", "assign", "api"))
        mon.note(op)
        changed = True
        if op == "row" and x.stitches:
            r = rng.choice(x.stitches)
            k = rng.randrange(3)
            r[k] += rng.choice((1, -1, 256)) if k < 2 else 1
        elif op == "append":
            x.add_stitch_absolute(STITCH, 1, 2)
        elif op == "del" and x.stitches:
            del x.stitches[rng.randrange(len(x.stitches))]
        elif op == "thread" and x.threadlist:
            if how != "deepcopy":
                # replace the object, then edit it: shallow copies may share threads
                k = rng.randrange(len(x.threadlist))
                x.threadlist[k] = EmbThread(x.threadlist[k])
            t = rng.choice(x.threadlist) if how == "deepcopy" else x.threadlist[k]
            f = rng.choice(("color", "description", "catalog_number", "details", "brand", "chart", "weight"))
            if f == "color":
                t.color ^= 1 << rng.randrange(24)
            else:
                setattr(t, f, "%s changed" % getattr(t, f))
        elif op == "threadlist":
            x.add_thread(rng.randrange(1 << 24))
        elif op == "swap" and len(x.threadlist) > 1 and x.threadlist[0] != x.threadlist[-1]:
            x.threadlist[0], x.threadlist[-1] = x.threadlist[-1], x.threadlist[0]
        elif op == "meta":
            x.metadata(rng.choice(list(x.extras) or ["new"]), "v%d" % rng.randrange(1 << 30))
        elif op == "metatype" and any(isinstance(v, (str, int)) for v in x.extras.values()):
            k = rng.choice([k for k, v in x.extras.items() if isinstance(v, (str, int))])
            v = x.extras[k]
            if isinstance(v, int):
                x.extras[k] = str(v)
            elif v.isdigit() and v.isascii():
                x.extras[k] = int(v)
            else:
                x.extras[k] = x.extras[rng.choice(list(x.extras))] = rng.randrange(100)
        elif op == "metadel" and x.extras:
            del x.extras[rng.choice(list(x.extras))]
        elif op == "nested" and how == "deepcopy" and isinstance(x.extras.get("nested"), dict):
            x.extras["nested"]["a"].append(3)
        elif op == "assign" and x.stitches:
            x[rng.randrange(len(x.stitches))] = [99991 + rng.random(), 5, TRIM]
        elif op == "api" and x.stitches:
            x.translate(1, 0)
        else:
            changed = False
        if not changed:
            continue
        mon.count("changes")
        info = lambda: {"how": how, "change": op, "one": snap(x), "other": snap(y), "other_before": frozen}
        mon.check(snap(y) == frozen, "aliasing:" + op, "%s: a change (%s) of one pattern reached the other" % (how, op), info)
        mon.check((x == y) == (snap(x)[:3] == snap(y)[:3]), "unequal:" + op, "%s: after a change (%s) equality is %r" % (how, op, x == y), info)
        mon.check((x != y) != (x == y), "ne", "== and != agree", info)
    if src and specs:
        mon.sig(how, src)
    mon.sample({"how": how, "source": show(src, 8)})
