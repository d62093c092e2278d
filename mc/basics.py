"""Matrices, transform text, viewboxes, angles, points and convex hulls against independent models.

P20 matrix operations, P21 transform lists, P22 viewboxes, P30 angles, P31 points, P32 convex hull.
"""
import itertools
import math
import operator
from copy import copy

from . import asked
from . import again
from . import large
from . import ref_path as ref
from .core import close, close_pt

TAU = math.tau


def bs():
    import svgio.basic as m
    return m


# -- 2x3 matrices as tuples (a b c d e f) -------------------------------------------------

I6 = (1.0, 0.0, 0.0, 1.0, 0.0, 0.0)


def mul(m, n):
    """m first, then n (column vectors: n . m)."""
    a, b, c, d, e, f = m
    A, B, C, D, E, F = n
    return (A * a + C * b, B * a + D * b, A * c + C * d, B * c + D * d, A * e + C * f + E, B * e + D * f + F)


def app(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def det(m):
    return m[0] * m[3] - m[1] * m[2]


def inv(m):
    a, b, c, d, e, f = m
    q = det(m)
    return (d / q, -b / q, -c / q, a / q, (c * f - d * e) / q, (b * e - a * f) / q)


def T(x, y):
    return (1.0, 0.0, 0.0, 1.0, x, y)


def S(x, y):
    return (x, 0.0, 0.0, y, 0.0, 0.0)


def R(t):
    return (math.cos(t), math.sin(t), -math.sin(t), math.cos(t), 0.0, 0.0)


def K(a, b):
    return (1.0, math.tan(b), math.tan(a), 1.0, 0.0, 0.0)


def about(m, x, y):
    return mul(mul(T(-x, -y), m), T(x, y))


def close6(m, w, tol=1e-9):
    sc = max([1.0] + [abs(x) for x in w])
    return all(abs(float(x) - y) <= tol * sc for x, y in zip(m, w))


def six(m):
    return (m.a, m.b, m.c, m.d, m.e, m.f)


def _entry(m):
    m[4] = 55.0


def _iadd(m):
    m @= "translate(3,4)"


MEDITS = [("post_scale", lambda m: m.post_scale(2, 3)), ("pre_translate", lambda m: m.pre_translate(5, 6)), ("inverse", lambda m: m.inverse()), ("reset", lambda m: m.reset()), ("entry", _entry), ("@=", _iadd)]


def P20(ctx):
    B = bs()
    M = B.Matrix
    other = (2, 1, -1, 3, 5, -7)
    otext = "matrix(2 1 -1 3 5 -7)"
    # name -> (real operation on x, model transformation, side)
    elem = {
        "scale(2)": (lambda x, p: getattr(x, p + "scale")(2), S(2, 2)),
        "scale(2,-3)": (lambda x, p: getattr(x, p + "scale")(2, -3), S(2, -3)),
        "scale(2,.5,4,5)": (lambda x, p: getattr(x, p + "scale")(2, .5, 4, 5), about(S(2, .5), 4, 5)),
        "scale(2,None,0,5)": (lambda x, p: getattr(x, p + "scale")(2, None, 0, 5), about(S(2, 2), 0, 5)),
        "scale(2,3,None,None)": (lambda x, p: getattr(x, p + "scale")(2, 3, None, None), S(2, 3)),
        "scale_x(3)": (lambda x, p: getattr(x, p + "scale_x")(3), S(3, 1)),
        "scale_y(3,1,2)": (lambda x, p: getattr(x, p + "scale_y")(3, 1, 2), about(S(1, 3), 1, 2)),
        "scale_x(3,1,2)": (lambda x, p: getattr(x, p + "scale_x")(3, 1, 2), about(S(3, 1), 1, 2)),
        "scale_y(-1)": (lambda x, p: getattr(x, p + "scale_y")(-1), S(1, -1)),
        "translate(3,-4)": (lambda x, p: getattr(x, p + "translate")(3, -4), T(3, -4)),
        "translate(5)": (lambda x, p: getattr(x, p + "translate")(5), T(5, 0)),
        "translate_x(3)": (lambda x, p: getattr(x, p + "translate_x")(3), T(3, 0)),
        "translate_y(3)": (lambda x, p: getattr(x, p + "translate_y")(3), T(0, 3)),
        "rotate(.5)": (lambda x, p: getattr(x, p + "rotate")(.5), R(.5)),
        "rotate(q)": (lambda x, p: getattr(x, p + "rotate")(B.Angle.degrees(90)), R(TAU / 4)),
        "rotate(.5,4,5)": (lambda x, p: getattr(x, p + "rotate")(.5, 4, 5), about(R(.5), 4, 5)),
        "rotate(-2,0,5)": (lambda x, p: getattr(x, p + "rotate")(-2, 0, 5), about(R(-2), 0, 5)),
        "rotate(1,3)": (lambda x, p: getattr(x, p + "rotate")(1, 3), about(R(1), 3, 0)),
        "rotate(1,None,None)": (lambda x, p: getattr(x, p + "rotate")(1, None, None), R(1)),
        "skew(.3,.2)": (lambda x, p: getattr(x, p + "skew")(.3, .2), K(.3, .2)),
        "skew(.3,.2,4,5)": (lambda x, p: getattr(x, p + "skew")(.3, .2, 4, 5), about(K(.3, .2), 4, 5)),
        "skew(.3,.2,0,5)": (lambda x, p: getattr(x, p + "skew")(.3, .2, 0, 5), about(K(.3, .2), 0, 5)),
        "skew_x(.4)": (lambda x, p: getattr(x, p + "skew_x")(.4), K(.4, 0)),
        "skew_y(.4)": (lambda x, p: getattr(x, p + "skew_y")(.4), K(0, .4)),
        "skew_x(.4,4,5)": (lambda x, p: getattr(x, p + "skew_x")(.4, 4, 5), about(K(.4, 0), 4, 5)),
        "skew_y(.4,4,5)": (lambda x, p: getattr(x, p + "skew_y")(.4, 4, 5), about(K(0, .4), 4, 5)),
        "cat(6)": (lambda x, p: getattr(x, p + "cat")(*other), other),
        "cat(Matrix)": (lambda x, p: getattr(x, p + "cat")(M(*other)), other),
        "cat(text)": (lambda x, p: getattr(x, p + "cat")(otext), other),
    }
    ops = []
    for p in ("post_", "pre_"):
        for n in elem:
            ops.append((p, n))
    ops += [("self", n) for n in ("*=Matrix", "@=Matrix", "*=text", "@=text", "inverse", "reset", "*=self")]
    ops += [("new", n) for n in ("x*Matrix", "x@Matrix", "x*text", "Matrix*x", "text*x", "text@x", "~x", "copy", "Matrix(x)", "Matrix(*x)", "Matrix(list)", "repr",
                                 "Matrix(text)", "x*x", "vector")]

    class St:
        pass
    roots = [I6, (1.5, 0.5, -0.25, 2.0, 3.0, -4.0), (0.0, 1.0, 1.0, 0.0, 10.0, 0.0), (-2.0, 0.0, 0.0, 0.5, 0.0, 0.0)]

    def build(r):
        st = St()
        st.x = M(*r)
        st.m = tuple(map(float, r))
        return st

    def apply(st, op, rec):
        how, n = op
        if how in ("post_", "pre_"):
            f, w = elem[n]
            f(st.x, how)
            st.m = mul(st.m, w) if how == "post_" else mul(w, st.m)
            return
        x, m = st.x, st.m
        o = M(*other)
        if how == "self":
            y = x
            if n == "*=Matrix":
                y *= o
            elif n == "@=Matrix":
                y @= o
            elif n == "*=text":
                y *= otext
            elif n == "@=text":
                y @= otext
            elif n == "*=self":
                y *= y
            elif n == "inverse":
                y.inverse()
            elif n == "reset":
                y.reset()
            if y is not x:
                rec.fail("inplace:" + n, "%s gives a new matrix" % n)
            st.m = {"inverse": lambda: inv(m), "reset": lambda: I6, "*=self": lambda: mul(m, m)}.get(n, lambda: mul(m, other))()
        else:
            w, f = {
                "x*Matrix": (lambda: mul(m, other), lambda: x * o), "x@Matrix": (lambda: mul(m, other), lambda: x @ o), "x*text": (lambda: mul(m, other), lambda: x * otext),
                "Matrix*x": (lambda: mul(other, m), lambda: o * x), "text*x": (lambda: mul(other, m), lambda: otext * x), "text@x": (lambda: mul(other, m), lambda: otext @ x),
                "~x": (lambda: inv(m), lambda: ~x), "copy": (lambda: m, lambda: copy(x)), "Matrix(x)": (lambda: m, lambda: M(x)), "Matrix(*x)": (lambda: m, lambda: M(*x)),
                "Matrix(list)": (lambda: m, lambda: M(list(x))), "repr": (lambda: m, lambda: eval(repr(x), {"Matrix": M})),
                "Matrix(text)": (lambda: m, lambda: M("matrix(%s)" % " ".join(map(repr, six(x))))), "x*x": (lambda: mul(m, m), lambda: x * x),
                "vector": (lambda: m[:4] + (0.0, 0.0), lambda: x.vector())}[n]
            before = six(x)
            st.x = f()
            st.m = w()
            if st.x is x:
                rec.fail("new:" + n, "%s gives its operand" % n)
            if six(x) != before or six(o) != other:
                rec.fail("operand:" + n, "%s changed an operand: %s %s" % (n, six(x), six(o)))
            if st.x is not x:
                x.post_scale(7, 9)  # the operand's later changes must not show
                x[4] = 1234.0
                o.reset()

    def canon(st):
        return tuple(round(v, 8) + 0.0 for v in st.m)

    def check(st, named, rec):
        x, m = st.x, st.m
        rec.compared(9)
        rec.outcome(canon(st))
        sc = max([1.0] + [abs(v) for v in m])
        if not close6(six(x), m):
            rec.fail("entries", "%s after %s is %s, expected %s" % (named[0], named[1], six(x), m))
            return
        if len(x) != 6 or [x[i] for i in range(6)] != list(six(x)) or list(x) != list(six(x)):
            rec.fail("index", "%s after %s indexes as %s" % (named[0], named[1], list(x)))
        if not close(x.determinant, det(m), 1e-8 * sc):
            rec.fail("determinant", "%s after %s has determinant %s, expected %s" % (named[0], named[1], x.determinant, det(m)))
        if (x.value_scale_x(), x.value_skew_x(), x.value_skew_y(), x.value_scale_y(), x.value_trans_x(), x.value_trans_y()) != six(x):
            rec.fail("values", "value_ methods of %s" % (six(x),))
        if x.is_identity() != (six(x) == I6):
            rec.fail("identity", "%s is_identity %s" % (six(x), x.is_identity()))
        d = det(m)
        for p in ((0, 0), (3, -2), (-10, 7.5)):
            w = app(m, p)
            v = app(m[:4] + (0, 0), p)
            got = {"point_in_matrix_space": x.point_in_matrix_space(p), "Point*": B.Point(*p) * x, "matrix_transform": B.Point(*p).matrix_transform(x),
                   "transform_point": x.transform_point(list(p))}
            for k, g in got.items():
                if not close_pt(g, w, 1e-9 * sc):
                    rec.fail("apply:" + k, "%s after %s: %s of %s is %s, expected %s" % (named[0], named[1], k, p, g, w))
            g = x.transform_vector(list(p))
            if not close_pt(g, v, 1e-9 * sc) or not close_pt(x.vector().point_in_matrix_space(p), v, 1e-9 * sc):
                rec.fail("vector", "%s after %s: vector %s gives %s, expected %s" % (named[0], named[1], p, g, v))
            if abs(d) > 1e-6:
                b = x.point_in_inverse_space(w)
                if not close_pt(b, p, 1e-7 * sc * sc / min(1.0, abs(d))):
                    rec.fail("inverse-space", "%s after %s: %s there and back is %s" % (named[0], named[1], p, b))
        if not close6(six(x), m):
            rec.fail("reading-changes", "reading changed %s after %s to %s" % (named[0], named[1], six(x)))
    ctx.bfs("operations", roots, ops, build, apply, canon, check, depth=ctx.pick(2, 3),
            bound="4 matrices x all histories of up to %d of %d operations" % (ctx.pick(2, 3), len(ops)))

    # every anchor, also one coordinate missing, on the axes, tiny and far
    coords = (None, 0, 0.0, 5, 3, -3, 1e-9, -1e-5, 1e7)
    acts = [("scale", S, (2, 3)), ("scale", S, (1, -1)), ("scale", S, (1e-3, 0.5)), ("scale", S, (1, 1)), ("scale_x", lambda v: S(v, 1), (0.25,)), ("scale_y", lambda v: S(1, v), (-4,)),
            ("scale", S, (2, 0)), ("scale", S, (0, -1)), ("scale_x", lambda v: S(v, 1), (0,)), ("scale_x", lambda v: S(v, 1), (-1,)), ("scale_y", lambda v: S(1, v), (0,)), ("scale_y", lambda v: S(1, v), (1,)),
            ("rotate", R, (0.7,)), ("rotate", R, (-math.pi / 2,)), ("rotate", R, (1e-7,)), ("rotate", R, (50.0,)), ("rotate", R, (0,)),
            ("skew", K, (0.3, 0.2)), ("skew", K, (0, -0.8)), ("skew", K, (1e-6, 0)), ("skew_x", lambda v: K(v, 0), (0.4,)), ("skew_y", lambda v: K(0, v), (2.2,))]

    def agen():
        for r in roots:
            for k in range(len(acts)):
                for p in ("pre_", "post_"):
                    for x in coords:
                        for y in coords:
                            yield (r, k, p, x, y)

    def afn(case, rec):
        r, k, p, x, y = case
        name, model, args = acts[k]
        m = M(*r)
        getattr(m, p + name)(*args, x, y) if name != "scale" else m.__getattribute__(p + name)(*args, x=x, y=y)
        w = about(model(*args), x or 0.0, y or 0.0)
        w = mul(r, w) if p == "post_" else mul(w, r)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome((name, p, x is None, y is None))
        big = max(abs(v) for v in w + (x or 0.0, y or 0.0, 1.0))
        if any(abs(g - v) > 1e-9 * (1 if i < 4 else big) * max(1.0, abs(v)) for i, (g, v) in enumerate(zip(six(m), w))):
            rec.fail("anchor:" + p + name, "%s(%s about %s, %s) of %s gives %s, expected %s" % (p + name, args, x, y, r, six(m), w))
    ctx.explore("anchors", agen, afn, bound="4 matrices x %d operations before and after x %d x %d anchors, also missing" % (len(acts), len(coords), len(coords)))

    def igen():
        for r in roots[1:] + [other, (3, 1, 4, 1, 5, 9), (1, 1, 1, 1.01, 2, 3), (0, -2, 7, 0, 1, 1)]:
            for k in ctx.pick((-9, -7, -5, -3, 0, 3, 6, 9), range(-12, 13)):
                for j in (0, -6, -3, 2, 5):
                    for q in (0, -4, 4):
                        yield (r, k, j, q)

    def ifn(case, rec):
        """Inverses of matrices of any size, against exact arithmetic, to the condition of the matrix."""
        from fractions import Fraction as F
        r, k, j, q = case
        u, v, w = 10.0 ** k, 10.0 ** j, 10.0 ** q
        m = (r[0] * u, r[1] * u * w, r[2] * u, r[3] * u * w, r[4] * v, r[5] * v)
        want = [float(x) for x in inv(tuple(map(F, m)))]
        cond = (abs(m[0] * m[3]) + abs(m[1] * m[2])) / abs(float(det(tuple(map(F, m)))))
        rec.state(case)
        rec.outcome((k, j))
        a, b = M(*m), M(*m)
        b.inverse()
        size = [max(abs(want[0]), abs(want[2])), max(abs(want[1]), abs(want[3]))] * 2
        size += [abs(want[0] * m[4]) + abs(want[2] * m[5]), abs(want[1] * m[4]) + abs(want[3] * m[5])]
        for how, g in (("~", ~a), ("inverse()", b)):
            rec.step()
            rec.compared(6)
            if any(abs(x - y) > 1e-11 * cond * z for x, y, z in zip(six(g), want, size)):
                rec.fail("inverse-magnitude", "%s of %s is %s, expected %s" % (how, m, six(g), tuple(want)))
        if six(a) != m:
            rec.fail("operand:~", "~ changed %s to %s" % (m, six(a)))
        p = (3.5, -1.25)
        g = a.point_in_inverse_space(a.point_in_matrix_space(p))
        z = 1 + max(size[4], size[5])
        if not close_pt(g, p, 1e-9 * cond * max(z, 10.0 * max(1.0, w) / min(1.0, w))):
            rec.fail("inverse-space-magnitude", "%s: %s there and back is %s" % (m, p, g))
    ctx.explore("inverses", igen, ifn, bound="7 matrices x %d scales x 5 sizes of the translation x 3 of one row, against rational arithmetic" % ctx.pick(8, 25))

    # a row of entries changed one at a time must break equality
    def egen():
        for m in roots + [other, (1, 1e-9, 0, 1, 1e6, 2)]:
            for i in range(6):
                for dlt in (0.0, 1.0, -1e-6, 1e-10, -2 * m[i]):
                    yield (m, i, dlt)

    def efn(case, rec):
        m, i, dlt = case
        x, y = M(*m), M(*m)
        y[i] = y[i] + dlt
        w = dlt == 0
        rec.state(case)
        rec.step()
        rec.compared(3)
        rec.outcome((i, w))
        for n in (6, 7, 100):
            for f in (lambda: x[n], lambda: x.__setitem__(n, 1.0)):
                try:
                    f()
                    rec.fail("index-past", "entry %d of a matrix" % n)
                except IndexError:
                    pass
        if (x == y, y == x, x != y, y != x) != (w, w, not w, not w):
            rec.fail("equality", "entry %d of %s changed by %s: == is %s, != is %s" % (i, m, dlt, x == y, x != y))
        t = "matrix(%s)" % ",".join(map(repr, six(y)))
        if (x == t) != w or (x != t) == w or x == None or not (x != None):  # noqa
            rec.fail("equality-text", "%s == %r is %s" % (m, t, x == t))
    ctx.explore("equality", egen, efn, bound="every entry of 6 matrices negated and changed by 0, 1, 1e-6 and 1e-10")

    def fgen():
        for n, f, w in (("scale", lambda: M.scale(2, 3), S(2, 3)), ("scale1", lambda: M.scale(2), S(2, 2)), ("scale_x", lambda: M.scale_x(4), S(4, 1)),
                        ("scale_y", lambda: M.scale_y(4), S(1, 4)), ("translate", lambda: M.translate(4, 5), T(4, 5)), ("translate1", lambda: M.translate(4), T(4, 0)),
                        ("translate_x", lambda: M.translate_x(4), T(4, 0)), ("translate_y", lambda: M.translate_y(4), T(0, 4)), ("rotate", lambda: M.rotate(.7), R(.7)),
                        ("skew", lambda: M.skew(.1, .2), K(.1, .2)), ("skew_x", lambda: M.skew_x(.1), K(.1, 0)), ("skew_y", lambda: M.skew_y(.1), K(0, .1)),
                        ("identity", lambda: M.identity(), I6), ("none", lambda: M(), I6), ("text", lambda: M(""), I6)):
            yield n

    table = {n: (f, w) for n, f, w in (("scale", lambda: M.scale(2, 3), S(2, 3)), ("scale1", lambda: M.scale(2), S(2, 2)), ("scale_x", lambda: M.scale_x(4), S(4, 1)),
             ("scale_y", lambda: M.scale_y(4), S(1, 4)), ("translate", lambda: M.translate(4, 5), T(4, 5)), ("translate1", lambda: M.translate(4), T(4, 0)),
             ("translate_x", lambda: M.translate_x(4), T(4, 0)), ("translate_y", lambda: M.translate_y(4), T(0, 4)), ("rotate", lambda: M.rotate(.7), R(.7)),
             ("skew", lambda: M.skew(.1, .2), K(.1, .2)), ("skew_x", lambda: M.skew_x(.1), K(.1, 0)), ("skew_y", lambda: M.skew_y(.1), K(0, .1)),
             ("identity", lambda: M.identity(), I6), ("none", lambda: M(), I6), ("text", lambda: M(""), I6))}

    def ffn(n, rec):
        f, w = table[n]
        rec.state(n)
        rec.step()
        rec.compared()
        rec.outcome(n)
        if not close6(six(f()), w, 1e-12):
            rec.fail("factory", "Matrix.%s is %s, expected %s" % (n, six(f()), w))
    ctx.explore("factories", lambda: sorted(table), ffn, bound="every factory")

    # what a factory gives does not depend on what was made or edited before
    def ism(m, w, rec, what):
        if not close6(six(m), w, 1e-9):
            rec.fail("history", "%s: the matrix is %s, expected %s" % (what, six(m), w))
    again.explore(ctx, "making", [(n, table[n][1]) for n in ("identity", "none", "text", "scale", "scale_x", "translate", "rotate", "skew_x")], lambda n: table[n][0](), ism, MEDITS, ctx.pick(4, 5))
    ctx.assumptions = ["invertible matrices", "compared to 1e-9 of the largest entry"]
    asked.explore(ctx, "asked", [("Matrix%r" % (r,), lambda r=r: M(*r)) for r in roots[:2]],
                  [(p + n, lambda o, p=p, n=n: elem[n][0](o, p) and None) for p in ("post_", "pre_") for n in ("scale(2,-3)", "translate(3,-4)", "rotate(.5)", "skew(.3,.2)", "cat(6)")] +
                  [("inverse", lambda o: o.inverse() and None), ("reset", lambda o: o.reset()), ("*=", lambda o: o.__imul__(otext) and None)] + [("[%d]" % i, lambda o, i=i: o.__setitem__(i, 1.75)) for i in range(6)] +
                  [("%s =" % k, lambda o, k=k: setattr(o, k, -0.75)) for k in "abcdef"],
                  [("entries", six), ("determinant", lambda o: o.determinant), ("~", lambda o: six(~o)), ("vector", lambda o: six(o.vector())), ("identity", lambda o: o.is_identity()), ("point", lambda o: o.point_in_matrix_space((3, 4))),
                   ("back", lambda o: o.point_in_inverse_space((3, 4))), ("product", lambda o: six(o * M(*other))), ("power", lambda o: six(M(*other) * o)), ("repr", repr), ("==", lambda o: o == M(*other)), ("== copy", lambda o: o == copy(o))], 2)


# -- transform lists -----------------------------------------------------------------------

def unit_px(v, u, ppi):
    return v * {"": 1.0, "px": 1.0, "pt": 1.3333, "pc": 16.0, "in": ppi, "mm": ppi * 0.0393701, "cm": ppi * 0.393701}[u]


def ang(v, u):
    return v * {"": TAU / 360, "deg": TAU / 360, "rad": 1.0, "grad": TAU / 400, "turn": TAU}[u]


def P21(ctx):
    B = bs()
    M = B.Matrix
    # plain functions: text pieces and their model
    funcs = [
        ("matrix", (2, 0.5, -1, 3, 4, -5), (2, .5, -1., 3., 4., -5.)),
        ("translate", (3,), T(3, 0)), ("translate", (3, -4), T(3, -4)), ("translateX", (2.5,), T(2.5, 0)), ("translateY", (-2,), T(0, -2)),
        ("scale", (2,), S(2, 2)), ("scale", (2, -3), S(2, -3)), ("scaleX", (3,), S(3, 1)), ("scaleY", (0.5,), S(1, .5)),
        ("rotate", (30,), R(ang(30, ""))), ("rotate", (-45, 4, 5), about(R(ang(-45, "")), 4, 5)), ("rotate", ("90deg",), R(TAU / 4)),
        ("rotate", ("1.5rad", 1, -2), about(R(1.5), 1, -2)), ("rotate", ("100grad",), R(TAU / 4)), ("rotate", ("0.1turn", 0, 3), about(R(.1 * TAU), 0, 3)),
        ("skewX", (20,), K(ang(20, ""), 0)), ("skewY", (-15,), K(0, ang(-15, ""))), ("skewX", ("0.3rad",), K(.3, 0)), ("skewY", ("20grad",), K(0, ang(20, "grad"))),
        ("skew", (10, 20), K(ang(10, ""), ang(20, ""))), ("skew", ("0.05turn", "5deg"), K(ang(.05, "turn"), ang(5, ""))),
        ("skewX", (20, 3, 4), about(K(ang(20, ""), 0), 3, 4)), ("skewY", (20, 3, 4), about(K(0, ang(20, "")), 3, 4)),
        ("skew", (10, 20, 3, 4), about(K(ang(10, ""), ang(20, "")), 3, 4)),
    ]

    def render(f, style):
        name, args, _ = f
        sep, opn, cls, case = style
        name = {"as": name, "lower": name.lower(), "upper": name.upper()}[case]
        return name + opn + sep.join(a if isinstance(a, str) else repr(a) for a in args) + cls

    styles = [(s, o, c, k) for s in (",", " ", ", ", " , ", "  ", "\n", "\t") for o, c in (("(", ")"), (" (", ")"), ("( ", " )"), ("\n(\n", "\n)")) for k in ("as", "lower", "upper")]

    def sgen():
        for i in range(len(funcs)):
            for st in styles:
                yield ((i,), st, " ")
        for i in range(len(funcs)):
            for j in range(len(funcs)):
                for st in (styles[0], styles[-1], styles[20]):
                    for joint in ("", " ", ",", ", ", "\n"):
                        yield ((i, j), st, joint)
        for ijk in itertools.product(range(len(funcs)) if ctx.thorough else range(0, len(funcs), 2), repeat=3):
            yield (ijk, styles[12], " ")

    def sfn(case, rec):
        idx, st, joint = case
        text = joint.join(render(funcs[i], st) for i in idx)
        w = I6
        for i in reversed(idx):
            w = mul(w, funcs[i][2])
        rec.state(tuple(round(v, 8) for v in w))
        rec.step(len(idx))
        rec.compared(2)
        rec.outcome(idx)
        m = M(text)
        if not close6(six(m), w):
            rec.fail("list:" + "+".join(funcs[i][0] for i in idx[:1]), "Matrix(%r) is %s, expected %s" % (text, six(m), w))
            return
        if not (m == text) or m != text:
            rec.fail("equal-text", "Matrix(%r) differs from its text" % text)
        p = B.Point(3, 4) * text
        if not close_pt(p, app(w, (3, 4)), 1e-9 * max(1, max(map(abs, w)))):
            rec.fail("point", "Point(3,4) * %r is %s, expected %s" % (text, p, app(w, (3, 4))))
    ctx.explore("lists", sgen, sfn, bound="24 function forms x %d spellings; all pairs x 3 spellings x 5 joints; all triples%s" % (len(styles), "" if ctx.thorough else " of every other form"))

    def long():
        for n in large.counts(ctx, 1025):
            for first in range(len(funcs)):
                if n < 40 or first % 8 == 0:
                    yield (n, first)

    def lfn(case, rec):
        n, first = case
        # turns and shifts, so that numbers stay in range
        ring = [i for i, f in enumerate(funcs) if f[0] in ("rotate", "translate", "translateX", "translateY")] + [first]
        idx = [ring[(first + 3 * i) % len(ring)] for i in range(n - 1)] + [first]
        text = " ".join(render(funcs[i], styles[0]) for i in idx)
        w = I6
        for i in reversed(idx):
            w = mul(w, funcs[i][2])
        rec.state(case)
        rec.step(n)
        rec.compared()
        rec.outcome(first)
        m = M(text)
        big = max(1.0, max(map(abs, w)))
        if big < 1e100 and any(abs(x - y) > 1e-8 * big for x, y in zip(six(m), w)):
            rec.fail("long", "Matrix(%r) is %s, expected %s" % (text, six(m), w))
    # what a text means does not depend on what was read or edited before
    def ism(m, w, rec, what):
        if not close6(six(m), w):
            rec.fail("history", "%s: the matrix is %s, expected %s" % (what, six(m), w))
    again.explore(ctx, "histories", [("", I6), ("scale(2)", S(2, 2)), ("translate(3,-4)", T(3, -4)), ("rotate(90deg)", R(TAU / 4)), ("rotate(90)", R(TAU / 4)), ("matrix(2,0.5,-1,3,4,-5)", (2, .5, -1., 3., 4., -5.)),
                                     ("translate(3,-4) scale(2)", mul(S(2, 2), T(3, -4)))], M, ism, MEDITS, ctx.pick(4, 5))
    ctx.explore("long", long, lfn, bound="lists of up to %d functions and around powers of two to 1024" % (ctx.pick(20, 70) - 1))

    spell = ["1", "-1", "+2", ".5", "-.5", "1.25", "1e1", "2E-1", "-1.5e+1", "0", "007"]

    def ngen():
        forms = ["translate(%s)", "translate(%s,7)", "translate(7 %s)", "scale(%s)", "scale(%s,2)", "scale(2,%s)", "rotate(%s)", "rotate(%s,3,4)", "rotate(10,%s,4)",
                 "rotate(10,3,%s)", "skewX(%s)", "skewY(%s)", "matrix(%s 2 3 4 5 6)", "matrix(1 %s 3 4 5 6)", "matrix(1 2 %s 4 5 6)", "matrix(1 2 3 %s 5 6)",
                 "matrix(1 2 3 4 %s 6)", "matrix(1 2 3 4 5 %s)", "translateX(%s)", "translateY(%s)", "scaleX(%s)", "scaleY(%s)", "skew(%s,10)", "skew(10,%s)"]
        for f in forms:
            for n in spell:
                yield (f, n)

    def nfn(case, rec):
        f, n = case
        v = float(n)
        a = ang(v, "")
        t = ang(10, "")
        w = {"translate(%s)": T(v, 0), "translate(%s,7)": T(v, 7), "translate(7 %s)": T(7, v), "scale(%s)": S(v, v), "scale(%s,2)": S(v, 2), "scale(2,%s)": S(2, v),
             "rotate(%s)": R(a), "rotate(%s,3,4)": about(R(a), 3, 4), "rotate(10,%s,4)": about(R(t), v, 4), "rotate(10,3,%s)": about(R(t), 3, v), "skewX(%s)": K(a, 0),
             "skewY(%s)": K(0, a), "translateX(%s)": T(v, 0), "translateY(%s)": T(0, v), "scaleX(%s)": S(v, 1), "scaleY(%s)": S(1, v), "skew(%s,10)": K(a, t),
             "skew(10,%s)": K(t, a)}.get(f)
        if w is None:
            w = tuple(float(x) for x in (f % n)[7:-1].split())
        m = M(f % n)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(w)
        if not close6(six(m), w):
            rec.fail("number:" + f, "Matrix(%r) is %s, expected %s" % (f % n, six(m), w))
    ctx.explore("numbers", ngen, nfn, bound="every argument of every function x %d number spellings" % len(spell))

    units = ["", "px", "pt", "pc", "mm", "cm", "in"]

    def lgen():
        for u in units:
            for ppi in (96.0, 72, 300):
                for f in ("translate(2{u})", "translate(2{u},-3{u})", "translateX(1.5{u})", "translateY(1.5{u})", "rotate(30deg,2{u},3{u})", "skewX(20,1{u},2{u})",
                          "skewY(20,1{u},2{u})", "skew(5,10,1{u},2{u})", "translate(2{u},3{u}) scale(2)", "scale(2,3) translate(2{u},3{u})", "rotate(30) translate(2{u},1{u})",
                          "translate(1{u},2{u}) rotate(45) translate(-1{u},-2{u})", "translate(1{u}) translate(0,2{u}) skewX(10)"):
                    for how in ("keyword", "render"):
                        yield (f, u, ppi, how)
        for dims in ((200, 100), (80, None), (None, 50), ("2in", "3in"), (None, None, 40), (100, None, 40), (None, 60, 40), (100, 60, 40), (0, None, 40), (100, 0, 40), (None, None, "2in")):
            for f in ("translate(10%,20%)", "translate(50%)", "translateX(25%)", "translateY(25%)", "translate(10%,20%) translate(5%,0)"):
                for how in ("keyword", "render"):
                    yield (f, dims, 96.0, how)
        for f, u in (("translate(2em,3em)", "em"), ("translate(2ex,-1ex)", "ex"), ("rotate(30,1em,2em)", "em"), ("translate(10vw,20vw)", "vw"), ("translate(10vh,5vh)", "vh"),
                     ("translateX(4vmin)", "vmin"), ("translateY(4vmax)", "vmax")):
            for how in ("keyword", "render"):
                yield (f, u, 96.0, how)

    def lfn(case, rec):
        f, u, ppi, how = case
        kw = {"ppi": ppi}
        if isinstance(u, tuple):
            text = f
            w, h = u[:2]
            if u[2:]:
                # One size for what has none of its own.
                kw["relative_length"] = u[2]
            if w is not None:
                kw["width"] = w
            if h is not None:
                kw["height"] = h
            w, h = (u[2] if u[2:] and x is None else x for x in (w, h))
            W = 192.0 if w == "2in" else w
            H = 288.0 if h == "3in" else 192.0 if h == "2in" else h
            ex, ey = {"translate(10%,20%)": (.1, .2), "translate(50%)": (.5, 0), "translateX(25%)": (.25, 0), "translateY(25%)": (0, .25),
                      "translate(10%,20%) translate(5%,0)": (.15, .2)}[f]
            m = M(text, **kw) if how == "keyword" else M(text).render(**kw)
            rec.state(case)
            rec.step()
            rec.compared()
            rec.outcome(case)
            for v, k, size in ((m.e, ex, W), (m.f, ey, H)):
                if size is None and k:
                    if not isinstance(v, B.Length) or v.units != "%" or not close(v.amount, k * 100, 1e-9):
                        rec.fail("percent-open", "Matrix(%r, %s) has %r, expected %s%% still open" % (text, kw, v, k * 100))
                elif k and (isinstance(v, B.Length) or not close(v, k * size, 1e-9)) or (not k and float(v) != 0):
                    rec.fail("percent", "Matrix(%r, %s) has %r, expected %s of %s" % (text, kw, v, k, size))
            return
        if u in ("em", "ex", "vw", "vh", "vmin", "vmax"):
            size = {"em": 16.0, "ex": 8.0, "vw": 2.0, "vh": 1.0, "vmin": 1.0, "vmax": 2.0}[u]
            text = f
            kw.update(font_size=16, font_height=8, viewbox="0 0 200 100")
            nums = {"translate(2em,3em)": T(2, 3), "translate(2ex,-1ex)": T(2, -1), "rotate(30,1em,2em)": about(R(ang(30, "")), 1, 2), "translate(10vw,20vw)": T(10, 20),
                    "translate(10vh,5vh)": T(10, 5), "translateX(4vmin)": T(4, 0), "translateY(4vmax)": T(0, 4)}[f]
            w = nums[:4] + (nums[4] * size, nums[5] * size)
        else:
            text = f.format(u=u)
            k = unit_px(1.0, u, ppi)
            d = ang(1, "")
            w = {"translate(2{u})": [T(2 * k, 0)], "translate(2{u},-3{u})": [T(2 * k, -3 * k)], "translateX(1.5{u})": [T(1.5 * k, 0)], "translateY(1.5{u})": [T(0, 1.5 * k)],
                 "rotate(30deg,2{u},3{u})": [about(R(30 * d), 2 * k, 3 * k)], "skewX(20,1{u},2{u})": [about(K(20 * d, 0), k, 2 * k)],
                 "skewY(20,1{u},2{u})": [about(K(0, 20 * d), k, 2 * k)], "skew(5,10,1{u},2{u})": [about(K(5 * d, 10 * d), k, 2 * k)],
                 "translate(2{u},3{u}) scale(2)": [T(2 * k, 3 * k), S(2, 2)], "scale(2,3) translate(2{u},3{u})": [S(2, 3), T(2 * k, 3 * k)],
                 "rotate(30) translate(2{u},1{u})": [R(30 * d), T(2 * k, k)],
                 "translate(1{u},2{u}) rotate(45) translate(-1{u},-2{u})": [about(R(45 * d), k, 2 * k)],
                 "translate(1{u}) translate(0,2{u}) skewX(10)": [T(k, 2 * k), K(10 * d, 0)]}[f]
            m = I6
            for x in reversed(w):
                m = mul(m, x)
            w = m
        m = M(text, **kw) if how == "keyword" else M(text).render(**kw)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(tuple(round(x, 6) for x in w))
        if isinstance(m.e, B.Length) or isinstance(m.f, B.Length) or not close6(six(m), w, 1e-4):
            rec.fail("lengths:" + how, "Matrix(%r, %s) by %s is %s, expected %s" % (text, kw, how, six(m), w))
    ctx.explore("lengths", lgen, lfn, bound="13 forms x 7 absolute units x 3 resolutions, percentages, font and viewbox units; at once and rendered later")
    def ggen():
        some = ("", "0", "3", "2px", "1.5in", "25.4mm", "-2cm", "3pt", "-1pc", "20%", "2em", "-3vw")
        for x in some:
            for y in some:
                for how in ("keyword", "render", "translate", "set"):
                    yield (x, y, how)

    def gfn(case, rec):
        """Lengths given as the last two components of a matrix."""
        x, y, how = case
        kw = dict(ppi=96.0, width=200, height=50, font_size=16, font_height=8, viewbox="0 0 300 100")
        size = lambda t, rel: 0.0 if not t else B.Length(t).value(ppi=96.0, relative_length=rel, font_size=16, font_height=8, viewbox="0 0 300 100")
        w = (2.0, 0.5, -1.0, 3.0, size(x, 200), size(y, 50))
        given = [B.Length(t) if t else 0.0 for t in (x, y)]
        text = [str(g) for g in given]
        if how == "keyword":
            m = M(2, 0.5, -1, 3, given[0], given[1], **kw)
        elif how == "render":
            m = M(2, 0.5, -1, 3, given[0], given[1])
            m.render(**kw)
        elif how == "set":
            m = M(2, 0.5, -1, 3, 0, 0)
            m[4], m[5] = given
            m.render(**kw)
        else:
            m = M.translate(*given)
            m.render(**kw)
            w = I6[:4] + w[4:]
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(w)
        if any(isinstance(v, B.Length) for v in (m.e, m.f)) or not close6(six(m), w, 1e-9) or [str(g) for g in given] != text:
            rec.fail("given:" + how, "lengths %r, %r of a matrix by %s give %s, expected %s" % (x, y, how, six(m), w))
    ctx.explore("given lengths", ggen, gfn, bound="all pairs of 12 lengths as the components of a matrix, at once and rendered later")
    ctx.assumptions = ["each list uses lengths of one family (px/pt/pc, mm/cm/in, %, em, ...); percentages only in translations",
                       "conversion factors of lengths accepted to 1e-4"]


# -- viewboxes --------------------------------------------------------------------------------

def fitted(e, v, aspect):
    """The matrix of viewBox v in viewport e (SVG 2, 8.2)."""
    parts = (aspect or "").split()
    align = parts[0] if parts else "xMidYMid"
    mos = parts[1] if len(parts) > 1 else "meet"
    sx, sy = e[2] / v[2], e[3] / v[3]
    if align != "none":
        sx = sy = min(sx, sy) if mos == "meet" else max(sx, sy)
    tx, ty = e[0] - v[0] * sx, e[1] - v[1] * sy
    if align != "none":
        fx = {"xMin": 0, "xMid": .5, "xMax": 1}[align[:4]]
        fy = {"YMin": 0, "YMid": .5, "YMax": 1}[align[4:]]
        tx += fx * (e[2] - v[2] * sx)
        ty += fy * (e[3] - v[3] * sy)
    return (sx, 0.0, 0.0, sy, tx, ty)


def P22(ctx):
    B = bs()
    aligns = ["none"] + ["x%sY%s" % (a, b) for a in ("Min", "Mid", "Max") for b in ("Min", "Mid", "Max")]
    aspects = [None, "", "  "] + [a + s for a in aligns for s in ("", " meet", " slice", "  slice", "\tmeet")] + [" " + a + " slice " for a in aligns]
    els = ctx.pick([(0, 0, 100, 100), (10, -5, 200, 50), (0, 0, 33, 77), (3, 4, 10, 1000)],
                   [(0, 0, 100, 100), (10, -5, 200, 50), (0, 0, 33, 77), (3, 4, 10, 1000), (0, 0, 1, 1), (-7.5, 2.25, 0.5, 640)])
    vbs = ctx.pick([(0, 0, 100, 100), (5, 5, 50, 100), (5, 5, 100, 50), (0, 0, 100, 25), (0, 0, 20, 100), (-20, 30, 400, 20), (0, 0, 33, 77), (1, 2, 0.5, 0.25)],
                   [(0, 0, 100, 100), (5, 5, 50, 100), (5, 5, 100, 50), (0, 0, 100, 25), (0, 0, 20, 100), (-20, 30, 400, 20), (0, 0, 33, 77), (1, 2, 0.5, 0.25), (10, -5, 200, 50), (10, -5, 200, 25), (0, 0, 1e4, 1)])

    class El:
        def __init__(self, x, y, width, height):
            self.x, self.y, self.width, self.height = x, y, width, height

    want = fitted

    def gen():
        for e in els:
            for v in vbs:
                for a in aspects:
                    yield (e, v, a)

    def forms(v, a):
        t = " ".join(map(str, v))
        yield "text", lambda: B.Viewbox(t, a)
        yield "commas", lambda: B.Viewbox(",".join(map(str, v)), preserve_aspect_ratio=a)
        yield "mixed", lambda: B.Viewbox(" %s , %s\n%s ,%s " % v, a)
        if a is not None:
            yield "dict", lambda: B.Viewbox({"viewBox": t, "preserveAspectRatio": a})
        else:
            yield "dict", lambda: B.Viewbox({"viewBox": t})
        yield "object", lambda: B.Viewbox(B.Viewbox(t, a))

    def fn(case, rec):
        e, v, a = case
        w = want(e, v, a)
        rec.state(case)
        rec.outcome(tuple(round(x, 6) for x in w))
        for how, f in forms(v, a):
            vb = f()
            t = vb.transform(El(*e))
            rec.step()
            rec.compared(2)
            if not isinstance(t, str) or not close6(six(B.Matrix(t)), w, 1e-9):
                rec.fail("transform:" + how, "viewBox %s preserveAspectRatio %r in %s gives %r, expected %s" % (v, a, e, t, w))
                return
            if (t == "") != close6(w, I6, 1e-12):
                rec.fail("identity", "viewBox %s preserveAspectRatio %r in %s gives %r" % (v, a, e, t))
            if (vb.x, vb.y, vb.width, vb.height) != tuple(map(float, v)) or vb.preserve_aspect_ratio != a:
                rec.fail("fields:" + how, "Viewbox(%r) holds %s" % (v, (vb.x, vb.y, vb.width, vb.height)))
            r = B.Viewbox(str(vb), a)
            if (r.x, r.y, r.width, r.height) != tuple(map(float, v)):
                rec.fail("text:" + how, "viewbox %s writes as %r" % (v, str(vb)))
        if B.Viewbox.viewbox_transform(*(e + v + (a,))) != t:
            rec.fail("static", "viewbox_transform differs from transform for %s" % (case,))
        # the corners of the viewbox, filled the way the alignment says
        m = B.Matrix(t)
        p, q = m.point_in_matrix_space(v[:2]), m.point_in_matrix_space((v[0] + v[2], v[1] + v[3]))
        parts = (a or "").split()
        tol = 1e-7 * max(1.0, max(map(abs, w)), e[2], e[3])
        fits = p[0] >= e[0] - tol and p[1] >= e[1] - tol and q[0] <= e[0] + e[2] + tol and q[1] <= e[1] + e[3] + tol
        covers = p[0] <= e[0] + tol and p[1] <= e[1] + tol and q[0] >= e[0] + e[2] - tol and q[1] >= e[1] + e[3] - tol
        if parts[:1] == ["none"] and not (fits and covers) or parts[1:] == ["slice"] and not covers or parts[1:] != ["slice"] and not fits:
            rec.fail("extent", "viewBox %s preserveAspectRatio %r in %s is shown at %s %s" % (v, a, e, p, q))
    ctx.explore("grid", gen, fn, bound="%d viewports x %d viewboxes x %d preserveAspectRatio texts x 5 ways of giving the viewbox" % (len(els), len(vbs), len(aspects)))

    def bgen():
        for k in range(-6, 16):
            for e in ((0, 0, 300, 200), (10, -20, 1e-2, 2e-2), (1, 2, 1e6, 3e6)):
                for w, h in ((1, 1), (3, 7), (2, 1 / 3.)):
                    for o in (0, 1, -0.3):
                        for a in (None, "none", "xMaxYMin slice", "xMinYMax"):
                            yield (e, tuple(x * 10.0 ** k for x in (o, -o, w, h)), a)

    def bfn(case, rec):
        e, v, a = case
        t = B.Viewbox.viewbox_transform(*(e + v + (a,)))
        m = B.Matrix(t)
        w = want(e, v, a)
        rec.state(case)
        rec.outcome(tuple(round(x, 6) for x in w))
        rec.step()
        rec.compared(2)
        tol = 1e-8 * max(max(map(abs, e)), abs(v[0] * w[0]), abs(v[1] * w[3]), v[2] * w[0], v[3] * w[3]) + 1e-11
        for fx in (0, 1):
            for fy in (0, 1):
                x, y = v[0] + fx * v[2], v[1] + fy * v[3]
                p = m.point_in_matrix_space((x, y))
                if not (abs(p[0] - (w[0] * x + w[4])) <= tol and abs(p[1] - (w[3] * y + w[5])) <= tol):
                    return rec.fail("magnitude", "viewBox %s preserveAspectRatio %r in %s gives %r: the corner %s is shown at %s, expected %s" % (
                        v, a, e, t, (x, y), p, (w[0] * x + w[4], w[3] * y + w[5])))
    ctx.explore("magnitudes", bgen, bfn, bound="viewboxes of size 1e-6 to 1e15 in 3 viewports x 4 preserveAspectRatio texts")

    def cgen():
        for b in ((0, 0, 4000, 3000), (0, 0, 1, 2), (5, -7, 100, 100)):
            for k in range(1, 9):
                for s in (1, -1):
                    for part in itertools.product((0, 1), repeat=4):
                        if any(part):
                            for a in (None, "none", "xMaxYMin slice", "xMinYMax"):
                                yield (b, s * 10.0 ** -k, part, a)

    def cfn(case, rec):
        b, e, part, a = case
        v = tuple(x + e if p and i < 2 else x * (1 + e) if p else x for i, (x, p) in enumerate(zip(b, part)))
        t = B.Viewbox.viewbox_transform(*(b + v + (a,)))
        w = want(b, v, a)
        rec.state(case)
        rec.step()
        rec.compared(2)
        rec.outcome(t == "")
        g = six(B.Matrix(t))
        if any(abs(x - y) > 2e-11 * max(1.0, abs(y)) for x, y in zip(g, w)):
            return rec.fail("nearly the same", "viewBox %s preserveAspectRatio %r in %s gives %r, expected %s" % (v, a, b, t, w))
        if t == "" and w != I6:
            rec.fail("nothing", "viewBox %s preserveAspectRatio %r in %s gives nothing, expected %s" % (v, a, b, w))
    ctx.explore("nearly-the-same", cgen, cfn, bound="3 viewports x every subset of the viewbox numbers off by 1e-1 to 1e-8, both ways x 4 preserveAspectRatio texts")

    def mgen():
        for mask in range(256):
            for a in (None, "none", "xMaxYMax slice"):
                yield (mask, a)

    def mfn(case, rec):
        mask, a = case
        vals = (1, 2, 30, 40, 5, 6, 70, 80)
        args = [None if mask >> i & 1 else v for i, v in enumerate(vals)]
        t = B.Viewbox.viewbox_transform(*(args + [a]))
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(t)
        if mask and t != "":
            rec.fail("missing", "viewport and viewbox %s give %r" % (args, t))
        if not mask and t == "":
            rec.fail("present", "nothing for %s" % (args,))
    ctx.explore("missing", mgen, mfn, bound="every subset of the eight numbers missing")

    def pgen():
        for t in (None, "", "1", "1 2", "1 2 3", "none"):
            yield t

    def pfn(t, rec):
        vb = B.Viewbox(t)
        rec.state(t)
        rec.step()
        rec.compared()
        rec.outcome(t)
        if vb.transform(El(0, 0, 10, 10)) != "":
            rec.fail("incomplete", "Viewbox(%r) gives %r" % (t, vb.transform(El(0, 0, 10, 10))))
    ctx.explore("incomplete", pgen, pfn, bound="viewbox texts with fewer than four numbers")
    ctx.assumptions = ["viewboxes with positive sizes", "preserveAspectRatio without the deprecated defer"]
    # asked, changed, and asked again
    def put(k, v):
        return ("%s = %r" % (k, v), lambda o: setattr(o, k, v))
    asked.explore(ctx, "asked", [(t, lambda t=t, a=a: B.Viewbox(t, a)) for t, a in (("0 0 10 10", None), ("5 6 40 20", "xMinYMax slice"), ("0 0 100 100", "none"))],
                  [("set_viewbox", lambda o: o.set_viewbox("1 2 30 40")), put("x", 7.0), put("y", -3.0), put("width", 55.0), put("height", 5.0), put("height", None), put("preserve_aspect_ratio", "none"),
                   put("preserve_aspect_ratio", "xMaxYMin"), put("preserve_aspect_ratio", None), ("by object", lambda o: o.property_by_object(B.Viewbox("0 0 3 4", "xMidYMin"))),
                   ("by values", lambda o: o.property_by_values({"viewBox": "9 8 7 6"})), ("by values ratio", lambda o: o.property_by_values({"preserveAspectRatio": "xMinYMin slice"}))],
                  [("transform %d" % i, lambda o, e=e: o.transform(El(*e))) for i, e in enumerate(els[:3])] + [("text", str)], ctx.pick(2, 3))


# -- angles -----------------------------------------------------------------------------------

    # what a text means does not depend on what was read or edited before
    def isv(v, w, rec, what):
        got = (v.x, v.y, v.width, v.height)
        t = six(B.Matrix(v.transform(El(0, 0, 100, 100))))
        if got != w or not close6(t, (100 / w[2], 0, 0, 100 / w[3], -w[0] * 100 / w[2], -w[1] * 100 / w[3]), 1e-9):
            rec.fail("history", "%s: the viewbox is %s with transform %s, expected %s" % (what, got, t, w))

    def vset(n, v):
        def f(b):
            setattr(b, n, v)
        return (n, f)

    def make(src):
        if src[0] == "object":
            return B.Viewbox(B.Viewbox(src[1], "none"))
        return B.Viewbox({"viewBox": src[1], "preserveAspectRatio": "none"}) if src[0] == "values" else B.Viewbox(src[1], "none")
    again.explore(ctx, "histories", [((k, "%g %g %g %g" % v), tuple(map(float, v))) for v in ((0, 0, 50, 25), (1, 2, 10, 20)) for k in ("text", "values", "object")], make, isv,
                  [vset("x", 9.0), vset("width", 3.0), vset("preserve_aspect_ratio", "xMidYMid slice"), ("set_viewbox", lambda b: b.set_viewbox("4 4 8 8")),
                   ("transform", lambda b: b.transform(El(1, 2, 3, 4)))], ctx.pick(4, 5))


def P30(ctx):
    B = bs()
    A = B.Angle
    per = {"deg": 360.0, "rad": TAU, "grad": 400.0, "turn": 1.0, "": 360.0, "%": 100.0}
    nums = [0, 1, -1, 0.5, -0.25, 45, 90, -90, 180, 270, 360, -360, 400, 720, 1000, 12.345, -1e-3, 1e3, -1e5]

    def gen():
        for n in nums:
            for u in per:
                for k in ("as", "upper"):
                    yield (n, u, k)

    def fn(case, rec):
        n, u, k = case
        t = "%r%s" % (n, u if k == "as" else u.upper())
        turns = n / per[u]
        rec.state(case)
        rec.step()
        rec.compared(10)
        rec.outcome(round(turns, 9))
        a = A.parse(t)
        made = {"deg": A.degrees, "rad": A.radians, "grad": A.gradians, "turn": A.turns}
        forms = [("parse", a), ("copy", copy(a)), ("Angle(x)", A(a))]
        if u in made:
            forms.append((u, made[u](n)))
        for how, x in forms:
            if not isinstance(x, A) or not close(float(x), turns * TAU, 1e-12) or not close(x.as_degrees, turns * 360, 1e-12) or not close(x.as_turns, turns, 1e-12) \
                    or not close(x.as_gradians, turns * 400, 1e-12) or not close(float(x.as_radians), turns * TAU, 1e-12):
                rec.fail("value:" + how, "Angle %s by %s is %r, expected %s turns" % (t, how, x, turns))
                return
            p = x.as_positive_degrees
            if p < 0 or abs((p - turns * 360 + 180) % 360 - 180) > 1e-6 or turns >= 0 and not close(p, turns * 360, 1e-12) or turns < 0 and p > 360:
                rec.fail("positive", "Angle %s has as_positive_degrees %s" % (t, p))
            z = x.normalized()
            if abs(turns) <= 100 and (not -1e-12 <= float(z) <= TAU + 1e-12 or not (z == x) or abs((float(z) - turns * TAU + math.pi) % TAU - math.pi) > 1e-8):
                rec.fail("normalized", "Angle %s normalizes to %r" % (t, z))
        r = eval(repr(a), {"Angle": A})
        if abs(float(r) - float(a)) > 1e-11:
            rec.fail("repr", "Angle %s is written %r" % (t, a))
    ctx.explore("units", gen, fn, bound="%d numbers x 6 units x case" % len(nums))

    base = [0.0, 1e-13, -1e-13, 1.0, -1.0, 45.0, 90.0, 179.999, 180.0, -180.0, 270.0, 359.0, 359.999, 360.0, 360 - 1e-13, 720.0, -360.0, 1080 + 45.0, 33.3]

    def pgen():
        for a in base:
            for b in base:
                yield (a, b)

    def pfn(case, rec):
        a, b = case
        x, y = A.degrees(a), A.degrees(b)
        d = abs((a - b + 180) % 360 - 180)
        w = d < 1e-9
        rec.state(case)
        rec.step()
        rec.compared(4)
        rec.outcome(w)
        if (x == y, y == x, x != y, y != x) != (w, w, not w, not w):
            rec.fail("equality", "Angle of %s and %s degrees: == %s %s, != %s %s, expected equal %s" % (a, b, x == y, y == x, x != y, y != x, w))
    ctx.explore("equality", pgen, pfn, bound="all pairs of %d angles, also either side of a full turn" % len(base))

    def ogen():
        for k in range(-8, 9):
            for off in (0, 1, -0.5, 1e-3, 30, 44.9):
                yield (k, off)

    def ofn(case, rec):
        k, off = case
        a = A.degrees(90 * k + off)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(off)
        if a.is_orthogonal() != (off == 0):
            rec.fail("orthogonal", "%s degrees is_orthogonal %s" % (90 * k + off, a.is_orthogonal()))
    ctx.explore("orthogonal", ogen, ofn, bound="17 multiples of 90 degrees and 5 offsets")

    def bigs():
        for e in range(0, 19):
            yield -(10 ** e) - 1.0

    def bfn(v, rec):
        p = A.degrees(v).as_positive_degrees
        rec.state(v)
        rec.step()
        rec.compared()
        rec.outcome(v)
        if not 0 <= p <= 360:
            rec.fail("positive-large", "%s degrees as positive is %s" % (v, p))
    ctx.explore("large", bigs, bfn, timeout=2.0, bound="negative angles up to 1e18 degrees terminate")
    ctx.assumptions = ["angles within 1e-11 rad of each other modulo a turn are equal"]


# -- points -----------------------------------------------------------------------------------

def P31(ctx):
    B = bs()
    P = B.Point
    xs = ctx.pick([(0, 0), (3, -4), (-1.5, 2), (0, 5), (-7, 0), (1e6, 1e-3)],
                  [(0, 0), (3, -4), (-1.5, 2), (0, 5), (-7, 0), (1e6, 1e-3), (-2, -2), (0.1, 0.2), (0, -1), (12, 5)])

    class Obj:
        def __init__(self, x, y):
            self.x, self.y = x, y

    def operands(q):
        yield "Point", lambda: P(*q)
        yield "tuple", lambda: tuple(q)
        yield "list", lambda: list(q)
        yield "complex", lambda: complex(*q)
        yield "object", lambda: Obj(*q)
        if q[1] == 0:
            yield "number", lambda: q[0]

    def gen():
        for p in xs:
            for q in xs:
                yield (p, q)

    ops = {"+": (operator.add, operator.iadd), "-": (operator.sub, operator.isub), "*": (operator.mul, operator.imul)}

    def val(o):
        if isinstance(o, (tuple, list)):
            return tuple(o)
        if isinstance(o, (int, float, complex)):
            return (complex(o).real, complex(o).imag)
        return (o.x, o.y)

    def fn(case, rec):
        p, q = case
        z, y = complex(*p), complex(*q)
        rec.state(case)
        rec.outcome((p == q, q == (0, 0)))
        for n, mk in operands(q):
            for o, (f, fi) in ops.items():
                w = {"+": z + y, "-": z - y, "*": z * y}[o]
                wr = {"+": z + y, "-": y - z, "*": z * y}[o]
                x, k = P(*p), mk()
                r = f(x, k)
                rec.step(3)
                rec.compared(3)
                if not isinstance(r, P) or not close_pt(r, (w.real, w.imag), 1e-12) or r is x:
                    rec.fail("op:%s:%s" % (o, n), "Point%s %s %s %s is %r" % (p, o, n, q, r))
                if (x.x, x.y) != p or val(k) != tuple(q):
                    rec.fail("operand:%s:%s" % (o, n), "Point%s %s %s %s changed an operand" % (p, o, n, q))
                x, k = P(*p), mk()
                r = fi(x, k)
                if r is not x or not close_pt(x, (w.real, w.imag), 1e-12) or val(k) != tuple(q):
                    rec.fail("iop:%s=:%s" % (o, n), "Point%s %s= %s %s is %r" % (p, o, n, q, r))
                if n in ("object",):
                    continue
                x, k = P(*p), mk()
                r = f(k, x)
                if not isinstance(r, P) or not close_pt(r, (wr.real, wr.imag), 1e-12) or (x.x, x.y) != p or val(k) != tuple(q):
                    rec.fail("rop:%s:%s" % (o, n), "%s %s %s Point%s is %r" % (n, q, o, p, r))
            # equality
            w = p == q
            x, k = P(*p), mk()
            if ((x == k) != w or (x != k) == w) or (n != "object" and (k == x) != w):
                rec.fail("equality:" + n, "Point%s == %s %s is %s" % (p, n, q, x == k))
            # made from the operand
            c = P(k)
            if (c.x, c.y) != tuple(q) or c is k or list(c) != list(q) or len(c) != 2 or (c.real, c.imag) != tuple(q) or complex(c) != y:
                rec.fail("made:" + n, "Point(%s %s) is %r" % (n, q, c))
            c = P(*q)
            d = P(c)
            e = copy(c)
            c.x, c[1] = 99, 98
            if (d.x, d.y) != tuple(q) or (e.x, e.y) != tuple(q) or (c[0], c.y) != (99, 98):
                rec.fail("independent", "copies of Point%s changed with it" % (q,))
        for t in ("%r,%r" % p, "(%r, %r)" % p, "%r %r" % p, str(P(*p))):
            c = P(t)
            if not close_pt(c, p, 1e-11) or not (P(*p) == t or abs(p[0]) > 1e5) or P(*p) != t and abs(p[0]) < 1e5:
                rec.fail("text", "Point(%r) is %r" % (t, c))
        if not close_pt(eval(repr(P(*p)), {"Point": P}), p, 1e-11):
            rec.fail("repr", "Point%s is written %r" % (p, P(*p)))
    ctx.explore("operators", gen, fn, bound="all pairs of %d points x 6 operand kinds x + - * and their in-place and reflected forms" % len(xs))

    amounts = (0, 1, 0.5, -1, 2, 0.3)

    def ggen():
        for p in xs:
            for q in xs:
                for a in amounts:
                    yield (p, q, a)

    def gfn(case, rec):
        p, q, a = case
        d = math.hypot(q[0] - p[0], q[1] - p[1])
        sc = 1e-12
        rec.state(case)
        rec.step(10)
        rec.compared(10)
        rec.outcome((p == q, a))
        w = (p[0] + a * (q[0] - p[0]), p[1] + a * (q[1] - p[1]))
        for n, mk in operands(q):
            x, k = P(*p), mk()
            if n == "object" or n == "number":
                continue
            m = P(*p)
            m.move_towards(k, a)
            chk = [("towards", P.towards(x, P(k), a), w), ("move_towards", m, w), ("reflected_across", x.reflected_across(k), (2 * q[0] - p[0], 2 * q[1] - p[1]))]
            for name, g, ww in chk:
                if not close_pt(g, ww, 1e-9):
                    rec.fail(name + ":" + n, "%s of %s and %s %s by %s is %s, expected %s" % (name, p, n, q, a, g, ww))
            if not close(x.distance_to(k), d, 1e-12) or not close(P.distance(x, P(k)), d, 1e-12):
                rec.fail("distance:" + n, "distance of %s and %s %s is %s" % (p, n, q, x.distance_to(k)))
            ang_ = math.atan2(q[1] - p[1], q[0] - p[0])
            for name, g in (("angle_to", x.angle_to(k)), ("angle", P.angle(x, P(k)))):
                if not isinstance(g, B.Angle) or not close(float(g), ang_, 1e-12):
                    rec.fail(name + ":" + n, "%s of %s and %s is %s" % (name, p, q, g))
            if (x.x, x.y) != p or val(k) != tuple(q):
                rec.fail("geometry-operand", "an operand of %s %s changed" % (p, q))
        x = P(*p)
        for th, r in ((a * 2.1, q[0]), (a * -7.3, q[1]), (a * 40, q[0])):
            w = (p[0] + r * math.cos(th), p[1] + r * math.sin(th))
            x = P(*p)
            tol = 1e-12 * max(1.0, abs(r))
            if not close_pt(P.polar(x, th, r), w, tol) or (x.x, x.y) != p:
                rec.fail("polar", "polar of %s is %s, expected %s" % (p, P.polar(x, th, r), w))
            y = x.polar_to(th, r)
            if y is not x or not close_pt(x, w, tol):
                rec.fail("polar_to", "polar_to of %s is %s, expected %s" % (p, x, w))
        x = P(*p)
        c = x.conjugate()
        if (c.x, c.y) != (p[0], -p[1]) or not close(abs(x), math.hypot(*p), 1e-12):
            rec.fail("complex", "conjugate or abs of %s" % (p,))
        if p != (0, 0) and not close(x.argz(), math.atan2(p[1], p[0]), 1e-12):
            rec.fail("argz", "argument of %s is %s" % (p, x.argz()))
    ctx.explore("geometry", ggen, gfn, bound="all pairs of %d points x 6 amounts" % len(xs))

    results = [("+", lambda x, k: x + k), ("-", lambda x, k: x - k), ("*", lambda x, k: x * k), ("reflected_across", lambda x, k: x.reflected_across(k)),
               ("towards", lambda x, k: P.towards(x, k, 0.5)), ("towards 0", lambda x, k: P.towards(x, k, 0)), ("towards 1", lambda x, k: P.towards(x, k, 1)),
               ("polar", lambda x, k: P.polar(x, 0.5, k.x)), ("conjugate", lambda x, k: x.conjugate()), ("Point", lambda x, k: P(x)), ("copy", lambda x, k: copy(x)),
               ("* identity", lambda x, k: x * B.Matrix()), ("* text", lambda x, k: x * ""), ("* 1", lambda x, k: x * 1), ("+ 0", lambda x, k: x + 0), ("- 0", lambda x, k: x - 0),
               ("in matrix space", lambda x, k: B.Matrix().point_in_matrix_space(x)), ("in inverse space", lambda x, k: B.Matrix().point_in_inverse_space(x))]

    def own():
        g = list(itertools.product((-1, 0, 1, 3), repeat=2))
        return itertools.product(range(len(results)), g, g)

    def own_fn(case, rec):
        i, p, q = case
        rec.state(case)
        rec.outcome(i)
        for both in (False, True):
            if both and p != q:
                continue
            x = P(*p)
            k = x if both else P(*q)
            r = results[i][1](x, k)
            rec.step()
            rec.compared(2)
            was = (r.x, r.y)
            r += (50, 60)
            if (x.x, x.y) != p or (k.x, k.y) != q:
                return rec.fail("own:" + results[i][0], "Point%s %s Point%s: editing the result changed an operand" % (p, results[i][0], q))
            r -= (50, 60)
            x *= 3
            x += (7, 8)
            k += (5, 5)
            if not close_pt(r, was, 1e-9):
                return rec.fail("own:" + results[i][0], "Point%s %s Point%s: editing an operand changed the result" % (p, results[i][0], q))
    ctx.explore("own results", own, own_fn, bound="%d operations on all pairs of points of a 4x4 grid, result or operands edited" % len(results))

    class Other:
        pass
    unfit = [("None", lambda: None), ("[]", lambda: []), ("[7]", lambda: [7]), ("(7,)", lambda: (7,)), ("['a', 'b']", lambda: ["a", "b"]), ("{}", lambda: {}), ("{1: 2}", lambda: {1: 2}), ("object", Other),
             ("[None, 2]", lambda: [None, 2]), ("[7, None]", lambda: [7, None])]

    def ufn(case, rec):
        """What is no point is refused, and nothing has changed."""
        p, o, k = case
        name, mk = unfit[k]
        rec.state(case)
        rec.outcome((o, name))
        for side in ("x?k", "x?=k"):
            x = P(*p)
            v = mk()
            rec.step()
            rec.compared()
            try:
                r = ops[o][side == "x?=k"](x, v)
                rec.fail("unfit:" + o, "Point%s %s %s gives %r" % (p, o, name, r))
            except (TypeError, KeyError, AttributeError):
                pass
            if (x.x, x.y) != p:
                rec.fail("unfit-changes:" + o, "Point%s %s %s (%s) fails and leaves %s" % (p, o, name, side, x))
        for n in (2, 3, 50):
            x = P(*p)
            for f in (lambda: x[n], lambda: x.__setitem__(n, 1.0)):
                try:
                    f()
                    rec.fail("index-past", "coordinate %d of a point" % n)
                except IndexError:
                    pass
    ctx.explore("unfit operands", lambda: itertools.product([(3.5, -4.0), (0.0, 0.0), (0.0, 1.0)], ops, range(len(unfit))), ufn, bound="10 operands that are no points x + - * and their in-place forms")

    def heq():
        v = (0, 0.0, -0.0, 1, 1.0, -1, 3.5, 1e-9, 1e9, 2 ** 60)
        return itertools.product(v, v, v, v)

    def heqfn(case, rec):
        a, b, c, d = case
        x, y = P(a, b), P(c, d)
        w = a == c and b == d
        rec.state(case)
        rec.step()
        rec.compared(2)
        rec.outcome(w)
        if w and (hash(x) != hash(y) or len({x, y}) != 1 or {x: 1}[y] != 1):
            rec.fail("hash", "equal points %r and %r hash apart" % (x, y))
        if (x == y, y == x, x != y) != (w, w, not w):
            rec.fail("equality", "%r == %r is %s" % (x, y, x == y))
    ctx.explore("hashes", heq, heqfn, bound="all pairs of points of 10 coordinates, also negative zero and a billionth")

    def ogen():
        g = list(itertools.product((-1, 0, 2), repeat=2))
        return itertools.product(g, repeat=3)

    def ofn(case, rec):
        p, q, r = case
        c = (q[0] - p[0]) * (r[1] - q[1]) - (q[1] - p[1]) * (r[0] - q[0])
        w = 0 if c == 0 else 1 if c < 0 else 2
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(w)
        if P.orientation(p, q, r) != w or P.orientation(P(*p), P(*q), P(*r)) != w:
            rec.fail("orientation", "orientation of %s is %s, expected %s" % (case, P.orientation(p, q, r), w))
    ctx.explore("orientation", ogen, ofn, bound="all triples on a 3x3 grid")

    def edits():
        names = [("x", 5), ("y", -2), (0, 7.5), (1, 0), ("+", (1, 1)), ("-", (2, 0)), ("*", 2j), ("T", "translate(1,2) scale(2)"), ("copy", 0), ("toward", (4, 4))]
        for d in range(1, ctx.pick(3, 4) + 1):
            for h in itertools.product(names, repeat=d):
                yield h

    def efn(h, rec):
        x, m = P(3, -4), (3, -4)
        for n, v in h:
            if n in ("x", "y"):
                setattr(x, n, v)
                m = (v, m[1]) if n == "x" else (m[0], v)
            elif n in (0, 1):
                x[n] = v
                m = (v, m[1]) if n == 0 else (m[0], v)
            elif n == "+":
                x += v
                m = (m[0] + 1, m[1] + 1)
            elif n == "-":
                x -= P(v)
                m = (m[0] - 2, m[1])
            elif n == "*":
                x *= v
                m = (-2 * m[1], 2 * m[0])
            elif n == "T":
                x *= v
                m = (2 * m[0] + 1, 2 * m[1] + 2)
            elif n == "copy":
                old = x
                x = copy(x)
                old *= 0
                old += (9, 9)
            elif n == "toward":
                x.move_towards(v, 0.5)
                m = ((m[0] + 4) / 2.0, (m[1] + 4) / 2.0)
            rec.step()
            rec.compared()
            if not close_pt(x, m, 1e-12):
                rec.fail("history:%s" % n, "Point(3,-4) after %s is %s, expected %s" % (h, x, m))
                return
        rec.state(m)
        rec.outcome(len(h))
    ctx.explore("histories", edits, efn, bound="all histories of up to %d of 10 edits" % ctx.pick(3, 4))
    ctx.assumptions = ["powers of points are left out (the library rounds them to integers)"]
    P = B.Point
    asked.explore(ctx, "asked", [("Point(3, 4)", lambda: P(3, 4)), ("Point('1,-2')", lambda: P("1,-2"))],
                  [("+=", lambda o: o.__iadd__((2, 5)) and None), ("-=", lambda o: o.__isub__((2, 5)) and None), ("*= matrix", lambda o: o.__imul__("rotate(90)") and None), ("*= 2", lambda o: o.__imul__(2) and None),
                   ("x", lambda o: setattr(o, "x", 7)), ("y", lambda o: setattr(o, "y", 7)), ("[0]", lambda o: o.__setitem__(0, -1)), ("[1]", lambda o: o.__setitem__(1, -1)), ("towards", lambda o: o.move_towards((1, 1), 0.5)), ("polar", lambda o: o.polar_to(0.5, 2) and None)],
                  [("xy", lambda o: (o.x, o.y)), ("list", list), ("abs", abs), ("complex", complex), ("==", lambda o: (o == (3, 4), o == P(7, 4))), ("distance", lambda o: o.distance_to((1, 1))), ("angle", lambda o: float(o.angle_to((1, 1)))),
                   ("reflected", lambda o: o.reflected_across((1, 1))), ("text", str), ("+", lambda o: o + 1j), ("*", lambda o: o * "scale(2)")], ctx.pick(2, 3))


# -- convex hull ------------------------------------------------------------------------------

    # what a text or number means does not depend on what was made or edited before
    def isp(p, w, rec, what):
        if p.x != w[0] or p.y != w[1]:
            rec.fail("history", "%s: the point is %s, expected %s" % (what, p, w))

    def isub(p):
        p -= (1, 1)

    def imul(p):
        p *= "scale(2)"

    def setx(p):
        p.x = 44.0

    def set1(p):
        p[1] = 45.0
    again.explore(ctx, "making", [("3,4", (3, 4)), ("0,0", (0, 0)), (0, (0, 0)), ((3, 4), (3, 4)), (3 + 4j, (3, 4)), ((0.0, 0.0), (0, 0)), (3, (3, 0))], B.Point, isp,
                  [("-=", isub), ("*=", imul), ("x", setx), ("[1]", set1), ("move_towards", lambda p: p.move_towards((9, 9), 0.5)), ("matrix_transform", lambda p: p.matrix_transform(B.Matrix("scale(3)")))], ctx.pick(4, 5))


def hull_ref(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts

    def half(ps):
        h = []
        for p in ps:
            while len(h) >= 2 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
                h.pop()
            h.append(p)
        return h
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def P32(ctx):
    B = bs()
    P = B.Point
    grid = list(itertools.product(range(ctx.pick(3, 4)), repeat=2))
    maxn = ctx.pick(9, 7)

    def gen():
        for n in range(0, maxn + 1):
            for c in itertools.combinations(grid, n):
                yield c
        g2 = [(0, 0), (10, 0), (5, 5), (5, 1), (5, -3), (0, 7), (10, 7), (-1.5, 2.25)]
        for n in range(1, 6):
            for c in itertools.permutations(g2, n):
                yield c
        for n in (2, 3, 4):
            for c in itertools.product(grid[:5], repeat=n):
                yield c

    def fn(pts, rec):
        w = hull_ref(pts)
        rec.state(tuple(sorted(set(pts))))
        rec.step()
        rec.compared(2)
        rec.outcome(len(w))
        for how, src in (("tuple", list(pts)), ("Point", [P(*p) for p in pts])):
            got = []
            for p in P.convex_hull(src):
                got.append((p[0], p[1]))
                if len(got) > len(pts):
                    break
            if len(got) != len(w) or sorted(got) != sorted(w):
                rec.fail("corners:" + how, "hull of %s (%s) is %s, expected the corners %s" % (pts, how, got, w))
                return
            if w and len(w) > 2:
                i = w.index(got[0])
                if got != w[i:] + w[:i] and got != [w[i]] + (w[i + 1:] + w[:i])[::-1]:
                    rec.fail("order:" + how, "hull of %s (%s) is %s, not in order around %s" % (pts, how, got, w))
            if len(src) != len(pts):
                rec.fail("input", "the input changed")
    ctx.explore("hulls", gen, fn, timeout=5.0, bound="all sets of up to %d points of a %dx%d grid, ordered and repeated selections" % (maxn, ctx.pick(3, 4), ctx.pick(3, 4)))
    def scaled():
        pts = [(x, y) for x in (0, 1, 3) for y in (0, 2, 3)]
        for k in (-40, -20, -12, 20):
            for o in ((0, 0), (-2, 1)):
                for n in range(1, ctx.pick(5, 7)):
                    for c in itertools.combinations(pts, n):
                        yield tuple(((x + o[0]) * 2.0 ** k, (y + o[1]) * 2.0 ** k) for x, y in c)

    def flats():
        for k in range(1, 24):
            e = 2.0 ** -k
            for b in ((0, 0), (1, 0), (0, 3)):
                for c in itertools.product((e, -e, 0.0), repeat=2):
                    for turn in (0, 1):
                        pts = [(0.0, 0.0), (4.0, 0.0), (1.0, c[0]), (2.0, c[1])] + ([(float(b[0]), float(b[1]))] if b != (0, 0) else [])
                        yield tuple((y, x) for x, y in pts) if turn else tuple(pts)
    def round_():
        # integer points in convex position (parabolas), shuffled, with points inside and repeated ones
        for n in large.counts(ctx, 257):
            for step in (1, 3, 7):
                up = [(float(i), float(i * i)) for i in range(n)]
                down = [(float(i), float(2 * n * n - i * i)) for i in range(n)]
                inside = [(float(i), float(n * n)) for i in range(1, n)]
                pts = up + down + inside + up[:2]
                order = sorted(range(len(pts)), key=lambda i: (i * 37 * step + step) % 101 * 1000 + i)
                yield tuple(pts[i] for i in order)
    ctx.explore("large", round_, fn, timeout=30.0, bound="up to %d corners and around powers of two to 256, on each of two curves, with points inside, in 3 orders" % (ctx.pick(20, 70) - 1))
    ctx.explore("sizes", scaled, fn, timeout=5.0, bound="sets of up to %d points of a 3x3 grid, at sizes of 2^-40 to 2^20" % ctx.pick(4, 6))
    ctx.explore("flat", flats, fn, timeout=5.0, bound="corners 2^-1 to 2^-23 from the line between their neighbours, both ways up")
    ctx.assumptions = ["coordinates for which the orientation test is exact"]


# -- P18 -------------------------------------------------------------------------------
def P18(ctx):
    """repr(value) is an expression for an equal value."""
    import math
    import svgio.basic as B
    import svgio.path as S
    from .ref_path import arc_point
    nums = [0.0, -0.0, 1.0, -1.0, 0.5, 1 / 3.0, -2.5e-5, 1.5e-9, 1e-11, 12345.678901, 1e12 + 0.5, -1e15, 2.5e20, 100.0, 1e3, 10.0, 1200.0]
    env = {}
    for m in (B, S):
        env.update({k: v for k, v in vars(m).items() if not k.startswith("_")})

    def near(a, b, tol=2e-12):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def pts(seg):
        out = []
        for n in ("start", "control", "control1", "control2", "end", "center", "prx", "pry"):
            if hasattr(seg, n):
                p = getattr(seg, n)
                out.append((n, None if p is None else (p[0], p[1])))
        if isinstance(seg, S.Arc):
            out.append(("sweep", (float(seg.sweep), 0.0)))
        return out

    def again(o, rec, what, numbers):
        """Evaluate the repr; numbers(x) lists the numbers of a value."""
        rec.step()
        rec.compared()
        before = numbers(o)
        r = repr(o)
        try:
            e = eval(r, dict(env))
        except Exception as err:
            return rec.fail("%s:not an expression" % what, "%s: repr %r: %s: %s" % (what, r, type(err).__name__, err))
        if type(e) is not type(o) and what != "Subpath":
            return rec.fail("%s:type" % what, "repr %r evaluates to a %s" % (r, type(e).__name__))
        a, b = numbers(o), numbers(e)
        if len(a) != len(b) or any((x is None) != (y is None) or (x is not None and x != y if isinstance(x, str) or isinstance(y, str) else x is not None and not near(x, y))
                                   for x, y in zip(a, b)):
            return rec.fail("%s:differs" % what, "repr %r evaluates to other numbers: %s, expected %s" % (r, b, a))
        if not (e == o) or (e != o) or not (o == e):
            rec.fail("%s:not equal" % what, "%r does not equal the value it was written for" % r)
        if numbers(o) != before:
            rec.fail("%s:changed" % what, "repr changed the value %r" % r)

    def points():
        for x in nums:
            for y in nums:
                yield (x, y)

    def point(case, rec):
        rec.state(case)
        again(B.Point(*case), rec, "Point", lambda p: [p.x, p.y])
        t = str(B.Point(*case))
        q = B.Point(t)
        rec.compared()
        if not (near(q.x, case[0], 1e-11) and near(q.y, case[1], 1e-11)):
            rec.fail("Point:str", "%r reads as %s, %s" % (t, q.x, q.y))
    ctx.explore("points", points, point, bound="%d x %d coordinates" % (len(nums), len(nums)))

    def matrices():
        for v in itertools.product((0.0, 1.0, -0.333333333, 2.5e-5, 1e6), repeat=4):
            for e, f in ((0.0, 0.0), (1e12 + 0.5, -1.5e-9), (7.25, 1200.0)):
                yield v + (e, f)
        for e in ("50%", "1cm", "-2.5em", "0.5in"):
            for f in ("25%", "3mm", "7"):
                yield (1.0, 0.0, 0.0, 1.0, e, f)

    def matrix(case, rec):
        if isinstance(case[4], str):
            m = B.Matrix("translate(%s,%s)" % case[4:])
        else:
            m = B.Matrix(*case)
        rec.state(case)
        again(m, rec, "Matrix", lambda m: [x if isinstance(x, (int, float)) else str(x) for x in (m.a, m.b, m.c, m.d, m.e, m.f)])
    ctx.explore("matrices", matrices, matrix, bound="5^4 linear parts x 3 translations, 12 translations with units")

    def colours():
        for n in [None, "none", "red", "transparent", "#0000", "#123456", "#12345678", "#fff0", "#010203"]:
            yield n
        for c in itertools.product((0, 1, 15, 16, 128, 255), repeat=4):
            yield c

    def colour(case, rec):
        c = B.Color("rgba(%d,%d,%d,0)" % case[:3]) if isinstance(case, tuple) else B.Color(case)
        if isinstance(case, tuple):
            c.alpha = case[3]
        rec.state(case)
        again(c, rec, "Color", lambda c: [c.red, c.green, c.blue, c.alpha])
    ctx.explore("colours", colours, colour, bound="6^4 channel values, named, none")

    def lengths():
        for n in [n for n in nums if float("%.12f" % n) == n]:
            for u in ("", "px", "pt", "pc", "mm", "cm", "in", "em", "ex", "%", "vw", "vh", "vmin", "vmax"):
                yield (n, u)

    def length(case, rec):
        rec.state(case)
        again(B.Length(case[0], case[1]), rec, "Length", lambda l: [l.amount, l.units])
    ctx.explore("lengths", lengths, length, bound="%d amounts x 14 units" % len([n for n in nums if float("%.12f" % n) == n]))

    def angles():
        for k in range(-48, 49):
            yield k * math.pi / 12
        for n in nums:
            yield n

    def angle(case, rec):
        rec.state(case)
        again(B.Angle(case), rec, "Angle", lambda a: [float(a)])
    ctx.explore("angles", angles, angle, bound="96 twelfths of a half turn and %d numbers" % len(nums))

    places = [None, (0.0, 0.0), (1.5, -2.0), (1e-9, 12345.678901), (1e12 + 0.5, 1 / 3.0)]

    def segments():
        for a, b in itertools.product(places, repeat=2):
            for k in "MLZ":
                yield (k, a, b)
            for c in places[1:]:
                yield ("Q", a, c, b)
                for d in places[1:4]:
                    yield ("C", a, c, d, b)
        for a, b in itertools.product(places[1:4], repeat=2):
            for rx, ry, rot in ((5, 3, 30), (1, 1, 0), (0.001, 2, -45), (0, 0, 0), (1000.5, 2000.25, 90)):
                for f in range(4):
                    yield ("A", a, rx, ry, rot, f & 1, f >> 1, b)

    mk = {"M": S.Move, "L": S.Line, "Z": S.Close, "Q": S.QuadraticBezier, "C": S.CubicBezier, "A": S.Arc}

    def segment(case, rec):
        o = mk[case[0]](*case[1:])
        rec.state(case)
        again(o, rec, type(o).__name__, lambda s: [v for _, p in pts(s) for v in (p if p is not None else (None, None))])
    ctx.explore("segments", segments, segment, bound="every kind of segment with points of 4 magnitudes or missing")

    def sweeps():
        for k in range(0, 12):
            for d in (1.0, 0.123456789012, 3.3333333333, -0.5, -7.77):
                for rx, ry, rot in ((5, 3, 0.3), (2.5, 2.5, 0), (1e-3, 7, 1.2), (4e5, 3e4, 2.0)):
                    yield (rx, ry, rot, d * 10.0 ** -k)

    def swept(case, rec):
        rx, ry, rot, d = case
        par = (1.5, -2.0, rx, ry, rot, 0.7, d)
        at = lambda t: arc_point(par, t)
        o = S.Arc(at(0), at(1), (1.5, -2.0), arc_point(par[:5] + (0.0, 1.0), 0), arc_point(par[:5] + (math.pi / 2, 1.0), 0), d)
        rec.state(case)
        again(o, rec, "Arc", lambda s: [v for _, p in pts(s) for v in p])
        e = eval(repr(o), dict(env))
        rec.compared()
        if abs(float(e.sweep) - d) > 2e-12 * max(1.0, abs(d)):
            rec.fail("Arc:sweep", "%r has sweep %r, its repr one of %r" % (o, d, float(e.sweep)))
        if len(S.Path(o)) != 1 or abs(float(eval(repr(S.Path(o)), dict(env))[0].sweep) - d) > 2e-12 * max(1.0, abs(d)):
            rec.fail("Path:sweep", "a path of %r loses the sweep in its repr" % o)
    ctx.explore("sweeps", sweeps, swept, bound="4 ellipses x sweeps of both signs and 12 magnitudes, alone and in a path")

    cmds = ["M5,6", "m0.25,-1", "L1e3,2", "h-7", "q1,2,3,4", "T9,9", "c1,2,3,4,5,6", "S1,2,3,4", "A5,3,30,0,1,7,4", "a1,1,0,1,0,2e-3,5", "z"]

    def paths():
        for n in range(ctx.pick(4, 5)):
            for c in itertools.product(cmds, repeat=n):
                yield "".join(("M1,2",) + c) if n or True else ""
        yield ""

    def flat(p):
        return [v for s in p for _, q in [("kind", (type(s).__name__, None))] + pts(s) for v in (q if q is not None else (None, None))]

    def path(case, rec):
        p = S.Path(case)
        rec.state(case)
        again(p, rec, "Path", flat)
        for i in range(p.count_subpaths() if case else 0):
            again(p.subpath(i), rec, "Subpath", flat)
    ctx.explore("paths-large", lambda: (ref.text(large.cmds(*c)) for c in large.cases(ctx, 257)), path, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 256" % (ctx.pick(20, 70) - 1))
    ctx.explore("paths", paths, path, bound="M and every sequence of up to %d of %d commands, the path and its subpaths" % (ctx.pick(3, 4), len(cmds)))
    ctx.assumptions.append("numbers are written with 12 decimals or 12 figures; the relative and smooth forms are not part of the value")
    asked.segments(ctx, "asked-segments", [("repr", repr)], kinds="MLZQCA")
    asked.paths(ctx, "asked-paths", [("repr", repr), ("subpaths", lambda p: [repr(s) for s in p.as_subpaths()])])
