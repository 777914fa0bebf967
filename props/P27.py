import copy
import itertools

from lib import enc, gen
from lib.cmds import *

ID = "P27"
LEVEL = "exploration"
RULE = (
    "random core designs (jump runs, stops, trims, changes, sequins, duplicate neighbouring colours) through each pass with random "
    "thresholds; needle points with their colours before and after, plus a run-based restatement of each pass; non-trivial = the pass "
    "changed something; distinct by kinds and pass"
)
ASSUMPTIONS = ["core commands, no change before the first stitch, one thread per colour block"]
MIN_EVENTS = {"passes": 5000, "changed": 1500, "stitches": 30000}


def cases(tier):
    return 80000 if tier == "quick" else 300000


def coloured(rows, threads, kinds=(STITCH, SEQUIN_EJECT)):
    """(x, y, kind, colour) of each needle point; a change moves to the next thread"""
    k, out = 0, []
    for x, y, c in rows:
        c = c if c == -1 else c & 0xFF
        if c in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
            k += 1
        elif c in kinds:
            out.append((x, y, c, threads[k].color if k < len(threads) else None))
    return out


def core(rng):
    """rows and thread specs"""
    w = gen.Walk(rng, rng.choice((4, 30, 90)))
    change = rng.choice((COLOR_CHANGE, COLOR_CHANGE, NEEDLE_SET, COLOR_BREAK))
    nb, longest = rng.choice((1, 2, 3, 5)), 1
    if rng.random() < 0.004:  # counts that take more than a byte
        nb, longest = rng.choice(((1, 300), (3, 150), (280, 1)))
    rows = []
    params = rng.random() < 0.3
    for b in range(nb):
        if b:
            c = change
            if params and rng.random() < 0.6:  # thread, needle and order numbers belong to the command
                c = pack(change, rng.choice((None, rng.randrange(min(nb, 200)))), rng.choice((None, rng.randint(1, 9))), rng.choice((None, None, rng.randrange(4))))
            edge = rng.random() < 0.15  # the change sits in a run of moves and stops
            if edge:
                for e in rng.choice(((JUMP, STOP), (JUMP,), (STOP,), (JUMP, JUMP, STOP), (JUMP, STOP, TRIM))):
                    rows.append([*(w.step() if e == JUMP else (w.x, w.y)), e])
            rows.append([w.x, w.y, c])
            if edge:
                for e in rng.choice(((JUMP,), (STOP, JUMP), (JUMP, STOP, JUMP), (JUMP, JUMP))):
                    rows.append([*(w.step() if e == JUMP else (w.x, w.y)), e])
        sewn = 0
        n = rng.choice((1, 2, 4, 8))
        while sewn < n:
            r = rng.random()
            if r < 0.2:
                rows.append([*w.step(), STITCH])
                sewn += 1
            elif r < 0.45:
                sx, sy = w.x, w.y
                for _ in range(rng.choice((1, 2, 3, 4, 6)) if longest == 1 else rng.randint(1, longest)):
                    rows.append([*w.step(), JUMP])
                if rng.random() < 0.25:  # back to where it came from
                    w.x, w.y = sx, sy
                    rows.append([sx, sy, JUMP])
            elif r < 0.5:
                rows.append([w.x, w.y, TRIM])
            elif r < 0.58 and rows:
                rows.append([w.x, w.y, STOP])
                if rng.random() < 0.5:
                    rows.append([*w.step(), JUMP])
            elif r < 0.62:
                rows.append([*w.step(), SEQUIN_EJECT])
            elif r < 0.65:
                rows.append([w.x, w.y, rng.choice((SLOW, FAST))])
            else:
                rows.append([*w.step(), STITCH])
                sewn += 1
    if rng.random() < 0.2:  # the machine leaves the design and stops, or starts to
        for c in rng.choice(((JUMP, STOP), (JUMP, JUMP, STOP, JUMP), (JUMP, STOP, TRIM), (TRIM, JUMP, STOP), (STOP, JUMP), (JUMP, STOP, STOP), (JUMP, SLOW, STOP))):
            rows.append([*(w.step() if c == JUMP else (w.x, w.y)), c])
    if rng.random() < 0.8:
        rows.append([w.x, w.y, END])
    if params and rng.random() < 0.3:  # numbers on any command
        for r in rows:
            if rng.random() < 0.2 and base(r[2]) == r[2] and r[2] not in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
                r[2] = pack(r[2], None, rng.choice((1, 4)), None)
    specs = gen.threads(rng, nb, distinct_adjacent=False, meta=rng.random() < 0.3)
    for k in range(1, nb):
        if rng.random() < 0.4:
            specs[k] = dict(specs[k - 1])
        elif rng.random() < 0.3 and specs[k]["color"] == specs[k - 1]["color"]:
            specs[k]["description"] = "other"
    return rows, specs


def ref_trims(rows, jumps, dist, clip):
    out, px, py, cut = [], 0, 0, True
    for is_jump, run in itertools.groupby(rows, lambda r: base(r[2]) == JUMP):
        run = list(run)
        if is_jump:
            at, keep = len(out), []
            trim = []
            for k, r in enumerate(run, 1):
                dx, dy = r[0] - px, r[1] - py
                if not cut and (k == jumps or dist is not None and (abs(dx) > dist or abs(dy) > dist)):
                    cut = True
                    trim = [[px, py, TRIM]]
                keep.append(list(r))
                if clip and dx == 0 and dy == 0:
                    keep = []
            out += trim + keep
        else:
            for r in run:
                if base(r[2]) in (STITCH, SEQUIN_EJECT):
                    cut = False
                elif base(r[2]) in (COLOR_CHANGE, NEEDLE_SET, TRIM):
                    cut = True
                out.append(list(r))
        px, py = rows_end(run, px, py)
    return out


def rows_end(run, px, py):
    return (run[-1][0], run[-1][1]) if run else (px, py)


def ref_frame_eject(rows):
    out, brk = [], (STITCH, SEW_TO, NEEDLE_AT, SEQUIN_EJECT, COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET)
    groups = [(k, list(g)) for k, g in itertools.groupby(rows, lambda r: base(r[2]) in brk)]
    for n, (sew, run) in enumerate(groups):
        if not sew:
            kinds = [base(r[2]) for r in run]
            j = kinds.index(JUMP) if JUMP in kinds else None
            s = kinds.index(STOP, j) if j is not None and STOP in kinds[j:] else None
            if s is not None and (JUMP in kinds[s:] or n == len(groups) - 1):
                out += run[:j] + [[run[s][0], run[s][1], FRAME_EJECT]]
                continue
        out += run
    return [list(r) for r in out]


def drop_redundant_trims(rows):
    out, cut = [], False
    for r in rows:
        c = base(r[2])
        if c == TRIM:
            if cut:
                continue
            cut = True
        elif c in (STITCH, SEQUIN_EJECT):
            cut = False
        out.append(list(r))
    return out


def ref_merge_untrimmed(rows, n):
    out, cut = [], True
    k = 0
    while k < len(rows):
        r = rows[k]
        c = base(r[2])
        if c in (STITCH, SEQUIN_EJECT):
            cut = False
        elif c in (COLOR_CHANGE, NEEDLE_SET, TRIM):
            cut = True
        if c == JUMP and not cut:
            e = k
            while e < len(rows) and base(rows[e][2]) == JUMP:
                e += 1
            if e - k >= n:
                out.append([None, None, TRIM])
            out.append(list(rows[e - 1]))
            k = e
            continue
        out.append(list(r))
        k += 1
    return out


def case(i, rng, mon):
    rows, specs = core(rng)
    passes = ["trims", "frame_eject", "dup_as_stop", "stop_as_dup", "merge_jumps", "merge_untrimmed", "stable"]
    op = rng.choice(passes)
    if op not in ("dup_as_stop", "stop_as_dup") and rng.random() < 0.02:  # a design that sews nothing
        rows = [r for r in rows if base(r[2]) not in (STITCH, SEQUIN_EJECT)][:rng.choice((0, 1, 5, 50))]
    lead = []  # the change some readers put before the first block: it picks the first thread
    if op in ("trims", "frame_eject", "dup_as_stop", "merge_jumps") and rng.random() < 0.15:
        lead = [[0, 0, rng.choice((NEEDLE_SET, COLOR_BREAK))]]
    p = gen.make_pattern(lead + rows, specs, {"name": "x", "k": 1})
    threads = list(p.threadlist)
    before = coloured(rows, threads)
    mon.count("stitches", len(before))
    mon.note(op)
    q = copy.copy(p)
    want = None
    wthreads = threads
    if op == "trims":
        jumps = rng.choice((None, 1, 2, 3, 5))
        dist = rng.choice((None, None, 10, 50))
        clip = rng.random() < 0.6
        q.interpolate_trims(jumps, dist, clip) if rng.random() < 0.5 else q.interpolate_trims(
            jumps_to_require_trim=jumps, distance_to_require_trim=dist, clipping=clip)
        want = ref_trims(rows, jumps, dist, clip)
    elif op == "frame_eject":
        q.interpolate_frame_eject()
        want = ref_frame_eject(rows)
    elif op == "dup_as_stop":
        q.interpolate_duplicate_color_as_stop()
        want, wthreads, k = [], [], 0
        for r in rows:
            r = list(r)
            if base(r[2]) in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
                k += 1
                if threads[k] == threads[k - 1]:
                    r[2] = STOP
            want.append(r)
        wthreads = [t for k, t in enumerate(threads) if not k or t != threads[k - 1]]
    elif op == "stop_as_dup":
        cmd = rng.choice((None, COLOR_CHANGE, NEEDLE_SET))
        q.interpolate_stop_as_duplicate_color() if cmd is None else q.interpolate_stop_as_duplicate_color(cmd)
        want, wthreads, k = [], [threads[0]], 0
        for r in rows:
            r = list(r)
            if base(r[2]) in (COLOR_CHANGE, COLOR_BREAK, NEEDLE_SET):
                k += 1
                wthreads.append(threads[k])
            elif base(r[2]) == STOP:
                r[2] = cmd or COLOR_CHANGE
                wthreads.append(threads[k])
            want.append(r)
    elif op == "merge_jumps":
        q = p.get_pattern_merge_jumps()
        want = []
        for j, run in itertools.groupby(rows, lambda r: base(r[2]) == JUMP):
            want += [[None, None, STITCH_BREAK]] if j else [list(r) for r in run]
    elif op == "merge_untrimmed":
        if rows and base(rows[-1][2]) == JUMP:
            return
        n = rng.choice((1, 2, 3, 5))
        q = p.get_pattern_interpolate_trim(n)
        want = drop_redundant_trims(ref_merge_untrimmed(rows, n))
    else:
        q = p.get_stable_pattern()
    mon.count("passes")
    mon.count("pass:" + op)
    got = [list(r) for r in q.stitches]
    if lead:
        mon.check(got[:1] == lead, "lead", "%s changed the command before the first block to %r" % (op, got[:1]))
        got = got[1:]
    info = lambda: {"pass": op, "before": show(rows, 80), "after": show(got, 80), "threads_before": threads, "threads_after": q.threadlist,
                    "expected": want and ["%s @ %r,%r" % (name(r[2]), r[0], r[1]) for r in want[:90]]}
    if op == "stable":
        # a pattern without jumps and trims: same stitches, colours; breaks between
        if any(base(r[2]) in (NEEDLE_SET, COLOR_BREAK, SEQUIN_EJECT) for r in rows):
            return
        k, out = -1, []
        for x, y, c in got:
            if c == COLOR_BREAK:
                k += 1
            elif base(c) == STITCH:
                out.append((x, y, STITCH, q.threadlist[k].color))
            else:
                mon.check(c == SEQUENCE_BREAK, "stable-command", "a stable pattern holds %s" % name(c), info)
        mon.check(out == before, "stable", "the stable pattern sews other stitches or colours", info)
        sb = list(p.get_as_stitchblock())
        mon.check([[tuple(r) for r in b] for b, _ in sb] == [
            [tuple(r) for r in g] for j, g in itertools.groupby(got, lambda r: base(r[2]) == STITCH) if j], "stable-blocks", "the stitch blocks differ", info)
    else:
        after = coloured(got, q.threadlist)
        mon.check(after == before, "conservation:" + op, "%s changed the needle points or their colours" % op, info)
        if op == "merge_untrimmed":
            got = drop_redundant_trims(got)
        ok = len(got) == len(want) and all(g[2] == w[2] and (w[0] is None or g[:2] == w[:2]) for g, w in zip(got, want))
        if not ok:
            k = next((j for j, (g, w) in enumerate(zip(got, want)) if g[2] != w[2] or w[0] is not None and g[:2] != w[:2]), min(len(got), len(want)))
            mon.fail("pass:" + op, "%s: row %d is %r, expected %r" % (op, k, got[k : k + 1], want[k : k + 1]), info())
        mon.check(list(q.threadlist) == wthreads, "threads:" + op, "%s leaves the threads %r, expected %r" % (op, q.threadlist, wthreads), info)
    mon.check(q.extras == p.extras, "metadata", "%s changed the metadata" % op, info)
    mon.check([list(r) for r in p.stitches] == lead + rows, "source", "%s changed the rows of its source" % op, info)
    if op == "merge_jumps" and not any(base(r[2]) == SEQUIN_EJECT for r in rows):
        # every jump sequence became a break: far points that were jumped to are still jumped to once encoded
        sewn = iter(sewn_over(q.get_normalized_pattern({"max_stitch": 20, "max_jump": 20})))
        px, py, last = 0, 0, None
        for x, y, c in rows:
            c = base(c)
            if c == STITCH:
                hit = next((s for s in sewn if s[:2] == (x, y)), None)
                mon.check(hit is not None, "merge-jumps-lost", "the encoder lost the needle point (%r,%r)" % (x, y), info)
                if last == JUMP and max(abs(x - px), abs(y - py)) > 40:
                    mon.count("far_jumps")
                    mon.check(hit[2] == JUMP, "merge-jumps-sewing", "the way to (%r,%r) was jumped and is now sewn" % (x, y), info)
                px, py = x, y
            if c in (STITCH, JUMP):
                last = c
    if got != rows:
        mon.count("changed")
        mon.sig(op, [base(r[2]) for r in rows])
    mon.sample({"pass": op, "before": show(rows, 10), "after": show(got, 10)})


def sewn_over(q):
    """(x, y, the move before) of each needle point"""
    out, last = [], None
    for x, y, c in q.stitches:
        c &= 0xFF
        if c == STITCH:
            out.append((x, y, last))
        if c in (STITCH, JUMP):
            last = c
    return out
