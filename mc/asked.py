"""Asking first: what an object answers after a program of edits does not depend on what it was asked before and between them."""
import itertools
import re

NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")


def near(a, b, size=1.0):
    """Equal up to rounding, numbers inside of text included."""
    if isinstance(a, (bool, type(None))) or isinstance(b, (bool, type(None))):
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b or (NUM.split(a) == NUM.split(b) and near([float(x) for x in NUM.findall(a)], [float(x) for x in NUM.findall(b)]))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-9 * max(size, abs(a), abs(b))
    if isinstance(a, complex) and isinstance(b, complex):
        return abs(a - b) <= 1e-9 * max(size, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(near(a[k], b[k], size) for k in a)
    if hasattr(a, "x") and hasattr(b, "x") and hasattr(a, "y"):
        return near((a.x, a.y), (b.x, b.y), size)
    try:
        a, b = list(a), list(b)
    except TypeError:
        return a == b
    return len(a) == len(b) and all(near(x, y, size) for x, y in zip(a, b))


def answer(f, o):
    try:
        return f(o)
    except (ValueError, TypeError, AttributeError, IndexError, ZeroDivisionError, OverflowError) as e:
        return "raises %s" % type(e).__name__


def explore(ctx, name, makes, edits, looks, depth, timeout=20.0):
    """makes: list of (name, function giving a new object), edits: list of (name, function changing the object, or giving
    another to go on with), looks: list of (name, function of the object giving plain values).

    For every object and program of edits each question is put to an object of its own that was never asked anything, to one
    that was asked just this before each edit as well, and all are put, one after another and again, to one object that was
    asked all of them before each edit."""
    def programs():
        for i in range(len(makes)):
            for n in range(0, depth + 1):
                for p in itertools.product(range(len(edits)), repeat=n):
                    yield (i, p)

    def run(i, p, asked, rec):
        o = makes[i][1]()
        for k in p:
            for n, f in asked:
                answer(f, o)
            rec.step()
            r = answer(edits[k][1], o)
            if r is not None and not isinstance(r, str):
                o = r
        return o

    def fn(case, rec):
        i, p = case
        rec.state(case)
        rec.outcome((i, p[-1:]))
        what = "%s after %s" % (makes[i][0], ", ".join(edits[k][0] for k in p) or "nothing")
        want = [answer(f, run(i, p, (), rec)) for n, f in looks]
        for (n, f), w in zip(looks, want):
            rec.compared()
            g = answer(f, run(i, p, ((n, f),), rec)) if p else answer(f, run(i, p, (), rec))
            if not near(w, g):
                rec.fail("asked alone:" + n, "%s: %s is %r, but %r when this was asked before" % (what, n, w, g))
                return
        o = run(i, p, looks, rec)
        for turn in range(2):
            for (n, f), w in zip(looks, want):
                rec.compared()
                g = answer(f, o)
                if not near(w, g):
                    rec.fail("asked:" + n, "%s: %s is %r, but %r when all was asked before" % (what, n, w, g))
                    return

    ctx.explore(name, programs, fn, timeout=timeout, bound="%d objects x all programs of up to %d of %d edits x %d questions, each asked alone at the end, alone or with all others before every edit" % (len(makes), depth, len(edits), len(looks)))


def attrs(*names):
    return [(n, lambda o, n=n: getattr(o, n)) for n in names]


MATRICES = ["scale(2)", "scale(1,-1)", "scale(2,3)", "rotate(90)", "rotate(30)", "translate(5,-7)", "skewX(30)"]


def times(text):
    def f(o):
        o *= text
        return o
    return ("*= %s" % text, f)


def set_point(name, x, y):
    from svgio import Point

    def f(o):
        if not hasattr(o, name):
            return
        setattr(o, name, Point(x, y))
    return ("%s = %s,%s" % (name, x, y), f)


def move_point(name, x, y):
    """The point itself is changed in place."""
    def f(o):
        p = getattr(o, name, None)
        if p is not None:
            p.x += x
            p.y += y
    return ("%s moved by %s,%s" % (name, x, y), f)


def reverse(o):
    o.reverse()


def segments(ctx, name, looks, kinds="LZQCA", points=True, depth=2):
    """looks at segments of these kinds between transformations, reversals and new points."""
    from svgio import Arc, Close, CubicBezier, Line, Move, QuadraticBezier
    all_ = [("M", "Move", lambda: Move((1, 2), (3, 4))), ("L", "Line", lambda: Line((1, 2), (8, -3))), ("Z", "Close", lambda: Close((1, 2), (8, -3))), ("Q", "QuadraticBezier", lambda: QuadraticBezier((0, 0), (5, 9), (7, 1))),
            ("C", "CubicBezier", lambda: CubicBezier((0, 0), (5, 9), (12, -6), (7, 1))), ("A", "circular Arc", lambda: Arc(start=(0, 0), end=(6, 0), center=(3, -4))),
            ("A", "elliptical Arc", lambda: Arc((0, 0), 5, 3, 30, 1, 0, (6, 2))), ("A", "round Arc", lambda: Arc(start=(5, 0), center=(0, 0), end=(5, 0), sweep=-6.283185307179586))]
    makes = [(n, f) for k, n, f in all_ if k in kinds]
    edits = [times(t) for t in MATRICES] + [("reverse", reverse)]
    if points:
        for n in ("start", "end", "control", "control1", "control2"):
            if n in ("start", "end") or ("C" if n[-1] in "12" else "Q") in kinds:
                edits += [set_point(n, 4, 11), move_point(n, 3, -5)]
    explore(ctx, name, makes, edits, looks, depth)


def paths(ctx, name, looks, depth=2, edits=None):
    """looks at paths between edits of every kind."""
    from svgio import Line, Path, QuadraticBezier
    texts = ["M0,0 L10,0 L10,10 z", "M0,0 C5,9 12,-6 7,1 S3,4 8,8 L2,2", "M1,1 L5,5 L9,1 z M20,20 Q25,30 30,20 T40,20", "M3,3 A5,3 30 0 1 9,4 A2,2 0 1 0 12,5 z m4,4 l3,3 z"]
    makes = [(t, lambda t=t: Path(t)) for t in texts]

    def item(i):
        def f(p):
            p[i] = Line(p[i].start, (6, 13))
        return f

    def delete(i):
        def f(p):
            del p[i]
        return f
    every = [times(t) for t in ("scale(2,3)", "rotate(90)", "translate(5,-7)", "scale(1,-1)")]
    every += [("reverse", reverse), ("append line", lambda p: p.append(Line(p.current_point, (30, -4)))), ("insert line", lambda p: p.insert(1, Line((0, 0), (-5, 6)))), ("item 1", item(1)), ("item 2", item(2)),
              ("del 1", delete(1)), ("del -1", delete(-1)), ("parse more", lambda p: p.parse("l3,4 q1,2 3,0")), ("+= text", lambda p: p.__iadd__("M50,50 L60,60 z")), ("line()", lambda p: p.line((17, 4))),
              ("direct_close", lambda p: p.direct_close()), ("approximate", lambda p: p.approximate_arcs_with_cubics()), ("subpath reverse", lambda p: p.subpath(0).reverse()),
              ("subpath *=", lambda p: p.subpath(0).__imul__("scale(3)") and None), ("last subpath +=", lambda p: p.subpath(p.count_subpaths() - 1).__iadd__("L70,1") and None),
              ("subpath item", lambda p: p.subpath(0).__setitem__(1, QuadraticBezier(p[0].end, (2, 9), (4, 4)))), ("smooth", lambda p: p.smooth_cubic((1, 2), (9, 9)))]
    if edits is not None:
        every = [e for e in every if e[0] in edits]
    explore(ctx, name, makes, every, looks, depth)


def seg_points(s):
    return [type(s).__name__] + [None if q is None else (q[0], q[1]) for q in s]


def path_points(p):
    return [seg_points(s) for s in p]
