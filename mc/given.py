"""P52: what is built from points, matrices, colours, lengths and boxes keeps no hold of them, and what is answered belongs to the asker."""
import itertools
from copy import copy

from . import asked
from .obs import snap

PTS = ((1.0, 2.0), (6.0, 1.0), (7.0, 8.0), (2.0, 9.0), (4.0, 4.0))


def see(x):
    """Plain data."""
    import svgio.basic as B
    import svgio.path as S
    import svgio.nodes as N
    if x is None or isinstance(x, (str, bool)):
        return x
    if isinstance(x, B.Point):
        return ("point", float(x.x), float(x.y))
    if isinstance(x, B.Matrix):
        return ("matrix",) + tuple(see(v) for v in x)
    if isinstance(x, B.Color):
        return ("color", x.value)
    if isinstance(x, B.Length):
        return ("length", x.amount, x.units)
    if isinstance(x, B.Viewbox):
        return ("viewbox", see(x.x), see(x.y), see(x.width), see(x.height), x.preserve_aspect_ratio)
    if isinstance(x, (int, float)):
        return float(x)
    if isinstance(x, complex):
        return (x.real, x.imag)
    if isinstance(x, S.PathSegment):
        return (snap(x), x.d())
    if isinstance(x, (S.Path, S.Subpath)):
        return ("path", [see(s) for s in x], x.d())
    if isinstance(x, N.Node):
        return (x.xml(), [see(s) for s in x.segments()] if hasattr(x, "segments") else None)
    if isinstance(x, dict):
        return {k: see(v) for k, v in x.items()}
    return [see(y) for y in x]


def imul(o, v):
    o *= v


def points_of(s):
    return [q for q in (getattr(s, k, None) for k in ("start", "end", "control", "control1", "control2", "center", "prx", "pry")) if q is not None]


def bump(s):
    seen = []
    for q in points_of(s):
        if not any(q is r for r in seen):
            seen.append(q)
            q.x += 100
            q.y -= 7


def both(q):
    q.x, q.y = q.x + 100, q.y - 7


def edits_of(x):
    """(name, in-place edit) for the kind of x; a list is edited item by item and as a list."""
    import svgio.basic as B
    import svgio.path as S
    if isinstance(x, B.Point):
        return [("x, y =", both), ("*=", lambda q: imul(q, "rotate(90) scale(2)")), ("[0] =", lambda q: q.__setitem__(0, 50.0))]
    if isinstance(x, B.Matrix):
        return [("post_rotate", lambda m: m.post_rotate(1.0)), ("pre_translate", lambda m: m.pre_translate(5, 6)), ("[0] =", lambda m: m.__setitem__(0, 9.0)), ("reset", lambda m: m.reset())]
    if isinstance(x, B.Color):
        return [("red =", lambda c: setattr(c, "red", 77)), ("opacity =", lambda c: setattr(c, "opacity", 0.25))]
    if isinstance(x, B.Length):
        return [("*= 3", lambda q: imul(q, 3)), ("amount =", lambda q: setattr(q, "amount", 17.0))]
    if isinstance(x, B.Viewbox):
        return [("x, width =", lambda v: (setattr(v, "x", 3.0), setattr(v, "width", 70.0)))]
    if isinstance(x, S.PathSegment):
        return [("points moved", bump), ("*=", lambda s: imul(s, "rotate(90) scale(2)")), ("reverse", lambda s: s.reverse())]
    if isinstance(x, (S.Path, S.Subpath)):
        out = [("points moved", lambda p: [bump(s) for s in list(p)]), ("*=", lambda p: imul(p, "rotate(90) scale(2)")), ("reverse", lambda p: p.reverse())]
        if isinstance(x, S.Path):
            out += [("line", lambda p: p.line((70, 1))), ("+= text", lambda p: p.__iadd__("L9,9z")), ("del", lambda p: p.__delitem__(-1))]
        return out
    if isinstance(x, list):
        out = [("%d %s" % (i, n), lambda l, i=i, f=f: f(l[i])) for i, y in enumerate(x) for n, f in edits_of(y)[:2]]
        return out + [("pop", lambda l: l.pop()), ("clear", lambda l: l.clear())]
    if isinstance(x, dict):
        return [("dict.clear", lambda d: d.clear())] + [("[%r] =" % k, lambda d, k=k: d.__setitem__(k, "7")) for k in list(x)[:2]]
    return []


def explore(ctx, name, forms, depth):
    """forms: (name, function giving what is given, function of it giving what is got). Every interleaving of in-place edits
    of either; each then is what it is when only its own edits are made."""
    lists = []
    for n, make, get in forms:
        a = make()
        b = get(a)
        lists.append([(0, e) for e in range(len(edits_of(a)))] + [(1, e) for e in range(len(edits_of(b)))])

    def gen():
        for i in range(len(forms)):
            for n in range(depth + 1):
                for h in itertools.product(lists[i], repeat=n):
                    yield (i, h)

    def play(i, h, only, rec):
        n, make, get = forms[i]
        a = make()
        first = see(a)
        pair = [a, get(a)]
        if only is None and see(a) != first:
            rec.fail("getting:" + n, "getting %s changed what it was got from: %r, was %r" % (n, see(a), first))
        eds = [edits_of(pair[0]), edits_of(pair[1])]
        for who, e in h:
            if only is None or who == only:
                rec.step()
                try:
                    eds[who][e][1](pair[who])
                except (IndexError, ValueError, TypeError, AttributeError):
                    return None, None  # of a list that is shorter now
        return pair, eds

    def fn(case, rec):
        i, h = case
        n = forms[i][0]
        pair, eds = play(i, h, None, rec)
        if pair is None:
            rec.skip("edit not applicable")
            return
        rec.state((i, tuple(map(repr, map(see, pair)))))
        rec.outcome((n, len(h)))
        for who in (0, 1):
            alone, _ = play(i, h, who, rec)
            rec.compared()
            if alone is None:
                rec.skip("edit not applicable")
                return
            if not asked.near(see(pair[who]), see(alone[who])):
                rec.fail(n, "%s: after %s what was %s is %r, expected %r" % (
                    n, ", ".join("%s of the %s" % (eds[w][e][0], ("given", "got")[w]) for w, e in h), ("given", "got")[who], see(pair[who]), see(alone[who])))
    ctx.explore(name, gen, fn, bound="%d ways to get one thing from another x all interleavings of up to %d of their in-place edits" % (len(forms), depth))


def P52(ctx):
    import svgio.basic as B
    import svgio.path as S
    import svgio.nodes as N
    depth = ctx.pick(2, 3)

    def pts(k):
        return lambda: [B.Point(*PTS[i]) for i in range(k)]

    # points given to segments and to the calls that build paths
    segs = [(1, "Move(p)", lambda p: S.Move(p[0])), (2, "Move(p, q)", lambda p: S.Move(*p)), (1, "Move(end=p)", lambda p: S.Move(end=p[0])),
            (2, "Line(p, q)", lambda p: S.Line(*p)), (2, "Line(start=, end=)", lambda p: S.Line(start=p[0], end=p[1])), (2, "Close(p, q)", lambda p: S.Close(*p)),
            (3, "QuadraticBezier(p, q, r)", lambda p: S.QuadraticBezier(*p)), (4, "CubicBezier(p, q, r, s)", lambda p: S.CubicBezier(*p)),
            (3, "Arc(p, q, r)", lambda p: S.Arc(*p)), (3, "Arc(start, control, end)", lambda p: S.Arc(start=p[0], control=p[1], end=p[2])),
            (3, "Arc(start, end, center)", lambda p: S.Arc(start=p[0], end=p[1], center=p[2], ccw=True)),
            (2, "Arc(start, end, r)", lambda p: S.Arc(start=p[0], end=p[1], r=20)), (2, "Arc(start, rx, ry, ..., end)", lambda p: S.Arc(p[0], 5, 3, 10, 0, 1, p[1])),
            (2, "Arc(start, radii, ..., end)", lambda p: S.Arc(p[0], 5 + 3j, 10, 0, 1, p[1])),
            (5, "Arc(start, end, center, prx, pry)", lambda p: S.Arc(start=p[0], end=p[1], center=p[2], prx=p[3], pry=p[4], sweep=1)),
            (5, "Arc(p, q, r, s, t)", lambda p: S.Arc(*p)), (5, "Arc(p, q, r, s, t, sweep)", lambda p: S.Arc(p[0], p[1], p[2], p[3], p[4], 1.5)), (4, "Arc(p, q, control=, ...)", lambda p: S.Arc(p[0], p[1], control=p[2])),
            (2, "Arc(start=, radius=, ...)", lambda p: S.Arc(start=p[0], radius=5 + 3j, rotation=10, arc_flag=0, sweep_flag=1, end=p[1])), (1, "Arc(start=, end= the same)", lambda p: S.Arc(start=p[0], end=p[0], center=p[0])),
            (1, "Line(p, p)", lambda p: S.Line(p[0], p[0])), (1, "CubicBezier(p, p, p, p)", lambda p: S.CubicBezier(p[0], p[0], p[0], p[0])), (1, "QuadraticBezier(p, p, p)", lambda p: S.QuadraticBezier(p[0], p[0], p[0])), (1, "Move(p, p)", lambda p: S.Move(p[0], p[0])),
            (2, "Arc(start, end, bulge)", lambda p: S.Arc(start=p[0], end=p[1], bulge=0.5)), (2, "Arc(start, center, sweep)", lambda p: S.Arc(start=p[0], center=p[1], sweep=1))]
    calls = [(1, "move"), (3, "move"), (1, "line"), (3, "line"), (2, "quad"), (4, "quad"), (3, "cubic"), (1, "smooth_quad"), (3, "smooth_quad"), (2, "smooth_cubic"), (4, "smooth_cubic")]
    forms = [(n, pts(k), f) for k, n, f in segs]
    for start in ("M0,0", "M0,0Q1,5 4,0", "M1,1C1,2 3,4 5,6z"):
        forms += [("Path(%r).%s of %d" % (start, n, k), pts(k), lambda p, n=n, s=start: getattr(S.Path(s), n)(*p)) for k, n in calls]
        forms += [("Path(%r).arc" % start, pts(1), lambda p, s=start: S.Path(s).arc(3, 4, 10, 0, 1, p[0]))]
    points = [("Point(p)", lambda p: B.Point(p)), ("copy(p)", copy), ("p + 0", lambda p: p + B.Point(0, 0)), ("p - 0", lambda p: p - B.Point(0, 0)), ("p * identity", lambda p: p * B.Matrix()), ("p * '' ", lambda p: p * "scale(1)"),
              ("towards", lambda p: B.Point.towards(p, B.Point(9, 9), 0)), ("polar", lambda p: B.Point.polar(p, 1.0, 0.0)), ("reflected", lambda p: p.reflected_across(p)), ("conjugate", lambda p: p.conjugate()),
              ("in matrix space", lambda p: B.Matrix().point_in_matrix_space(p)), ("in inverse space", lambda p: B.Matrix().point_in_inverse_space(p))]
    forms += [(n, lambda: B.Point(3, 4), f) for n, f in points]
    explore(ctx, "points-given", forms, depth)

    # matrices, colours, lengths, boxes
    M = lambda: B.Matrix(2, 1, -1, 3, 5, 7)
    forms = [(n, M, f) for n, f in [("Matrix(m)", lambda m: B.Matrix(m)), ("Matrix(*m)", lambda m: B.Matrix(*m)), ("copy(m)", copy), ("m @ identity", lambda m: m @ B.Matrix()), ("identity @ m", lambda m: B.Matrix() @ m), ("m @ ''", lambda m: m @ "scale(1)"),
                                    ("~m", lambda m: ~m), ("vector", lambda m: m.vector()), ("Path * m", lambda m: S.Path("M1,2L3,4A5,3 30 0 1 7,8z") * m), ("Line * m", lambda m: S.Line((1, 2), (3, 4)) * m), ("p * m", lambda m: B.Point(1, 2) * m),
                                    ("Rect(transform=str(m))", lambda m: B.Matrix(str(m))), ("reset after post_cat", lambda m: _cat(B.Matrix(), m, "post_cat")), ("pre_cat", lambda m: _cat(B.Matrix(), m, "pre_cat"))]]
    forms += [("Matrix(list)", lambda: [1.0, 2.0, 3.0, 4.0, 5.0, 6.0], lambda l: B.Matrix(l)), ("identity", lambda: [], lambda l: B.Matrix.identity())]
    forms += [("~identity", lambda: B.Matrix(), lambda m: ~m), ("identity @ identity", lambda: B.Matrix(), lambda m: m @ m)]
    forms += [("Color %s" % n, lambda: B.Color("#12345678"), f) for n, f in [("Color(c)", lambda c: B.Color(c)), ("Color(c, 1)", lambda c: B.Color(c, 1.0)), ("over", lambda c: B.Color(B.Color.over(c, c)))]]
    forms += [("blend", lambda: B.Color("#12345678"), lambda c: _blend(B.Color("red"), c))]
    forms += [("blend by %s" % o, lambda: B.Color("#12345678"), lambda c, o=o: _blend(B.Color("red"), c, o)) for o in (0, 0.5, 1)]
    for t in ("3mm", "50%", "0", "7px", "12"):
        forms += [("Length(%r) %s" % (t, n), lambda t=t: B.Length(t), f) for n, f in [
            ("Length(l)", lambda q: B.Length(q)), ("copy", copy), ("+ 0", lambda q: q + 0 if q.units in ("", "px") else q + B.Length("0" + q.units)), ("- 0", lambda q: q - (0 if q.units in ("", "px") else B.Length("0" + q.units))), ("* 1", lambda q: q * 1), ("1 *", lambda q: 1 * q), ("abs", abs),
            ("0 + l", lambda q: B.Length("0" + q.units) + q), ("-", lambda q: -q)]]
    forms += [("Viewbox(%s)" % n, lambda: B.Viewbox("0 0 10 20", "xMinYMin"), f) for n, f in [("v", lambda v: B.Viewbox(v))]]
    forms += [("Viewbox(dict)", lambda: {"viewBox": "0 0 10 20", "preserveAspectRatio": "none"}, lambda d: B.Viewbox(d))]
    explore(ctx, "values-given", forms, depth)

    # what paths, segments and shapes answer
    texts = ["M0,0 L4,4 Q5,6 7,8 C1,2 3,4 5,6 A5,3 20 0 1 9,9 z", "M1,1l2,2M5,5h3v4z", "M3,3", "m1,1q2,2 4,0t3,3", "M0,0C1,2 4,4 4,4", "M0,0Q4,4 4,4", "M0,0C0,0 0,0 0,0", "M2,2L2,2z", "M5,0A5,5 0 0 1 5,0"]
    looks = [("point(0)", lambda p: p.point(0)), ("point(0.4)", lambda p: p.point(0.4)), ("point(1)", lambda p: p.point(1)), ("npoint", lambda p: [B.Point(q[0], q[1]) for q in p.npoint([0, 0.3, 1])]),
             ("first_point", lambda p: p.first_point), ("current_point", lambda p: p.current_point), ("smooth_point", lambda p: p.smooth_point), ("* identity", lambda p: p * B.Matrix()),
             ("subpath * identity", lambda p: p.subpath(0) * B.Matrix()), ("Path(subpath)", lambda p: S.Path(p.subpath(0))), ("copy", copy), ("p + L", lambda p: p + "L1,1"), ("copies of segments", lambda p: [copy(s) for s in p]),
             ("Path(*copies)", lambda p: S.Path(*[copy(s) for s in p])), ("segments * identity", lambda p: [s * B.Matrix() for s in p]),
             ("ends of the segments", lambda p: [s.point(t) for s in p for t in (0, 0.5, 1)]), ("d", lambda p: p.d()),
             ("arcs as cubics", lambda p: [c for s in p if isinstance(s, S.Arc) for c in s.as_cubic_curves()]), ("arcs as quads", lambda p: [c for s in p if isinstance(s, S.Arc) for c in s.as_quad_curves()]),
             ("z_point", lambda p: p.z_point), ("npoint of the segments", lambda p: [q if isinstance(q, B.Point) else B.Point(q[0], q[1]) for s in p for q in s.npoint([0, 0.4, 1])]),
             ("npoint without numpy", lambda p: _bare(lambda: list(p.npoint([0, 0.4, 1])))), ("npoint of the segments without numpy", lambda p: _bare(lambda: [q for s in p for q in s.npoint([0, 0.4, 1])])),
             ("points of arcs", lambda p: [q for s in p if isinstance(s, S.Arc) for q in (s.point_at_t(0), s.point_at_angle(0.1), s.point_at_t(6.2))])]
    forms = [("Path(%r) %s" % (t, n), lambda t=t: S.Path(t), f) for t in texts for n, f in looks]
    forms = [f for f in forms if _answers(f)]
    explore(ctx, "answers", forms, depth)
    forms = [("closest point %s" % n, lambda: [S.Line((0, 0), (4, 3)), B.Point(*q)], lambda a: a[0].closest_segment_point(a[1])) for n, q in (("inside", (2, 5)), ("before", (-3, -3)), ("after", (9, 9)), ("at its start", (0, 0)), ("at its end", (4, 3)))]
    forms += [("closest point of a point", lambda: [S.Line((1, 1), (1, 1)), B.Point(2, 2)], lambda a: a[0].closest_segment_point(a[1])), ("closest point, unbounded", lambda: [S.Line((0, 0), (4, 3)), B.Point(4, 3)], lambda a: a[0].closest_segment_point(a[1], False))]
    forms = [f for f in forms if _answers(f)]
    forms += [("%s %s" % (w, s), lambda m=m: [m()], lambda a, f=f: f(a[0])) for w, f in (("segments", lambda n: list(n.segments())), ("bare segments", lambda n: list(n.segments(transformed=False))), ("Path of segments", lambda n: S.Path(*n.segments())))
              for s, m in (("Rect", lambda: N.Rect(1, 2, 3, 4)), ("Rect rounded", lambda: N.Rect(1, 2, 30, 40, 5, 6, transform="scale(2)")), ("Circle", lambda: N.Circle(1, 2, 3)), ("Ellipse", lambda: N.Ellipse(1, 2, 3, 4)), ("Line", lambda: N.Line(1, 2, 3, 4)),
                           ("Polyline of points", lambda: N.Polyline(pts(4)())), ("Polygon of points", lambda: N.Polygon(pts(4)())), ("Polygon of text", lambda: N.Polygon("1,2 3,4 5,6")), ("Path", lambda: N.Path("M1,2L3,4z")), ("Path moved", lambda: N.Path("M1,2L3,4z", transform="translate(2,3)")))]
    explore(ctx, "answers-of-shapes", forms, depth)
    ctx.assumptions = ["a Length given to a matrix, and a segment given to a path, become part of it"]


def _bare(f):
    """What f answers where numpy is not installed."""
    from .paths import Without
    with Without("numpy", "scipy"):
        return f()


def _cat(m, n, how):
    getattr(m, how)(n)
    return m


def _blend(a, *b):
    a.blend(*b)
    return a


def _answers(form):
    """Whether the question has an answer at all on this object, such as a bounding box of a lone move."""
    try:
        form[2](form[1]())
        return True
    except (ValueError, TypeError, AttributeError, IndexError, ZeroDivisionError):
        return False
