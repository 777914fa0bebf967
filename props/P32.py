import math

ID = "P32"
LEVEL = "exploration"
RULE = (
    "random histories of up to 25 matrix operations with point probes after each; oracle: an independent affine map (2x2 + offset) composed "
    "in the documented order; non-trivial = at least 3 operations; distinct by operation sequence"
)
ASSUMPTIONS = ["matrices with a zero scale are not inverted; comparison within relative 1e-6 of the magnitudes involved"]
MIN_EVENTS = {"operations": 10000, "points": 50000}


def cases(tier):
    return 40000 if tier == "quick" else 300000


# an affine map as (a, b, c, d, e, f): x' = a x + c y + e ; y' = b x + d y + f
I = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def ap(m, x, y):
    return m[0] * x + m[2] * y + m[4], m[1] * x + m[3] * y + m[5]


def then(f, g):
    """first f, then g"""
    ex, ey = ap(g, f[4], f[5])
    ox, oy = g[4], g[5]
    ax, ay = ap(g, f[0], f[1])
    cx, cy = ap(g, f[2], f[3])
    return ax - ox, ay - oy, cx - ox, cy - oy, ex, ey


def T(x, y):
    return 1.0, 0.0, 0.0, 1.0, x, y


def S(x, y):
    return x, 0.0, 0.0, y, 0.0, 0.0


def R(deg):
    r = math.radians(deg)
    return math.cos(r), math.sin(r), -math.sin(r), math.cos(r), 0.0, 0.0


def inv(m):
    d = m[0] * m[3] - m[1] * m[2]
    a, b, c, dd = m[3] / d, -m[1] / d, -m[2] / d, m[0] / d
    return a, b, c, dd, -(a * m[4] + c * m[5]), -(b * m[4] + dd * m[5])


def close(a, b, mag):
    return abs(a - b) <= 1e-6 * (1 + mag)


def general(rng, mon):
    """any 3x3 matrix: product and inverse as in the textbook (points are row vectors, so the product applies the right factor first)"""
    from pyembroidery import EmbMatrix

    num = lambda: rng.choice((rng.randint(-4, 4), rng.uniform(-3, 3)))
    a, b = [num() for _ in range(9)], [num() for _ in range(9)]
    want = [sum(b[3 * r + k] * a[3 * k + c] for k in range(3)) for r in range(3) for c in range(3)]
    n = EmbMatrix(list(a))
    n @= EmbMatrix(list(b))
    for how, got in (("matrix_multiply", EmbMatrix.matrix_multiply(a, b)), ("@", (EmbMatrix(list(a)) @ EmbMatrix(list(b))).m), ("@=", n.m)):
        mon.count("products")
        mon.check(len(got) == 9 and all(abs(u - v) < 1e-9 for u, v in zip(got, want)), "product", "the product by %s is %r, expected %r" % (how, got, want), [a, b])
    det = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6])
    if abs(det) > 0.05:
        n = EmbMatrix(list(a))
        n.inverse()
        unit = EmbMatrix.matrix_multiply(a, n.m)
        mon.check(all(abs(u - v) < 1e-6 for u, v in zip(unit, (1, 0, 0, 0, 1, 0, 0, 0, 1))), "inverse", "matrix times inverse is %r" % (unit,), a)
    k = rng.randrange(9)
    c = list(a)
    c[k] += rng.choice((1, -0.5))
    mon.check(EmbMatrix(list(a)) != EmbMatrix(c) and not EmbMatrix(list(a)) == EmbMatrix(c), "equality", "matrices that differ compare equal", [a, c])


def case(i, rng, mon):
    from pyembroidery import EmbMatrix, EmbPattern

    general(rng, mon)

    m, ref = EmbMatrix(), I
    names = []
    num = lambda: rng.choice((rng.randint(-100, 100), rng.uniform(-100, 100), 0))
    sc = lambda: rng.choice((1, 2, 0.5, -1, -1.5, rng.uniform(0.2, 3), 3)) if rng.random() < 0.94 else 0
    an = lambda: rng.choice((0, 90, 180, 270, -90, 45, 30, rng.uniform(-400, 400)))
    pts = [(0, 0), (1, 0), (0, 1)] + [(rng.randint(-500, 500), rng.randint(-500, 500)) for _ in range(3)]
    other = None

    def check(what):
        mag = max(abs(v) for v in ref) * 1000
        for x, y in pts:
            ex, ey = ap(ref, x, y)
            a = m.point_in_matrix_space(x, y)
            b = m.point_in_matrix_space([x, y])
            c = m.point_in_matrix_space((x, y, 77))
            v = [x, y, 5]
            m.apply(v)
            mon.count("points")
            for form, q in (("x, y", a), ("point", b), ("row", c), ("apply", v)):
                if not (close(q[0], ex, mag) and close(q[1], ey, mag)):
                    mon.fail("affine", "after %s the point (%r,%r) maps to %r as %s, expected (%r,%r)" % (what, x, y, q[:2], form, ex, ey),
                             {"operations": names, "matrix": m.m, "expected": ref})
            mon.check(len(a) == 2 and len(b) == 2 and len(c) == 3 and c[2] == 77 and v[2] == 5, "row-shape",
                      "mapping a point changes its other values: %r %r" % (c, v))

    check("creation")
    for k in range(rng.choice((1, 3, 6, 12, 25))):
        op = rng.choice(("post_translate", "post_scale", "post_rotate", "post_scale_pivot", "post_rotate_pivot", "pre_translate", "pre_scale",
                         "pre_rotate", "inverse", "reset", "matmul", "imatmul", "post_cat", "pre_cat", "post_scale1", "pre_scale1", "inv2"))
        before = ref
        if max(abs(v) for v in ref) > 1e5 or abs(ref[0] * ref[3] - ref[1] * ref[2]) < 1e-4:
            op = "reset"
        if op == "post_translate":
            x, y = num(), num()
            m.post_translate(x, y)
            ref = then(T(x, y), ref)
        elif op == "pre_translate":
            x, y = num(), num()
            m.pre_translate(x, y)
            ref = then(ref, T(x, y))
        elif op in ("post_scale", "post_scale1"):
            x = sc()
            y = x if op[-1] == "1" else sc()
            m.post_scale(x) if op[-1] == "1" else m.post_scale(x, y)
            ref = then(S(x, y), ref)
        elif op in ("pre_scale", "pre_scale1"):
            x = sc()
            y = x if op[-1] == "1" else sc()
            m.pre_scale(x) if op[-1] == "1" else m.pre_scale(x, y)
            ref = then(ref, S(x, y))
        elif op == "post_rotate":
            a = an()
            m.post_rotate(a)
            ref = then(R(a), ref)
        elif op == "pre_rotate":
            a = an()
            m.pre_rotate(a)
            ref = then(ref, R(a))
        elif op in ("post_scale_pivot", "post_rotate_pivot"):
            x, y = num(), num()
            if op == "post_scale_pivot":
                sx, sy = sc(), sc()
                m.post_scale(sx, sy, x, y)
                g = S(sx, sy)
            else:
                a = an()
                m.post_rotate(a, x, y)
                g = R(a)
            ref = then(then(then(T(-x, -y), g), T(x, y)), ref)
            # the pivot stays where the matrix had it
            q, w = m.point_in_matrix_space(x, y), ap(before, x, y)
            mag = max(abs(v) for v in before) * 1000
            mon.check(close(q[0], w[0], mag) and close(q[1], w[1], mag), "pivot", "%s moved its pivot (%r,%r) from %r to %r" % (op, x, y, w, q))
        elif op == "inverse":
            m.inverse()
            ref = inv(ref)
        elif op == "inv2":
            n = EmbMatrix(list(m.m))
            n.inverse()
            for prod in (m @ n, n @ m):
                for x, y in pts:
                    q = prod.point_in_matrix_space(x, y)
                    tol = 1e-3 * (1 + max(abs(v) for v in ref) ** 2 * 1e-3)
                    mon.check(abs(q[0] - x) < tol and abs(q[1] - y) < tol, "inverse", "matrix times inverse maps (%r,%r) to %r" % (x, y, q), ref)
        elif op == "reset":
            m.reset()
            ref = I
            mon.check(m == EmbMatrix(), "reset", "a reset matrix is not the identity")
        else:
            x, y, a = num(), num(), an()
            o = EmbMatrix()
            oref = I
            if rng.random() < 0.7:
                o.post_translate(x, y)
                oref = then(T(x, y), oref)
            if rng.random() < 0.7:
                o.post_rotate(a)
                oref = then(R(a), oref)
            if rng.random() < 0.5:
                s = sc()
                o.post_scale(s)
                oref = then(S(s, s), oref)
            om = list(o.m)
            if op == "matmul":
                old = m
                oldm = list(m.m)
                m = m @ o
                mon.check(list(old.m) == oldm, "operand", "@ changed its left operand")
                ref = then(oref, ref)
            elif op == "imatmul":
                m @= o
                ref = then(oref, ref)
            elif op == "post_cat":
                m.post_cat([o.m, EmbMatrix.get_translate(3, 4)])
                ref = then(T(3, 4), then(oref, ref))
            else:
                m.pre_cat([o.m, EmbMatrix.get_translate(3, 4)])
                ref = then(then(ref, oref), T(3, 4))
            mon.check(list(o.m) == om, "operand", "%s changed its operand" % op)
        names.append(op)
        mon.note(op)
        mon.count("operations")
        check(op)
        c = EmbMatrix(list(m.m))
        mon.check(c == EmbMatrix(list(m.get_matrix())) and not c != EmbMatrix(list(m.m)), "equality", "equal matrices compare unequal")
        mon.check(isinstance(str(m), str), "str", "str() of a matrix")
    if len(names) >= 3:
        mon.sig(names)
    # the same map, applied to a pattern row by row
    p = EmbPattern()
    rows = [[rng.randint(-300, 300), rng.randint(-300, 300), rng.choice((0, 1, 2, 5))] for _ in range(6)]
    p.stitches = [list(r) for r in rows]
    p.transform(m)
    mag = max(abs(v) for v in ref) * 1000
    for r, o in zip(p.stitches, rows):
        ex, ey = ap(ref, o[0], o[1])
        mon.check(close(r[0], ex, mag) and close(r[1], ey, mag) and r[2] == o[2], "pattern", "row %r maps to %r, expected %r" % (o, r, (ex, ey)))
    mon.sample({"operations": names[:8], "matrix": list(m.m)})
