"""P51: copies made by copy.deepcopy and by pickling, at every point of a history of edits."""
import copy
import itertools
import pickle

from . import asked
from .dom import load
from .obs import snap_path, snap

WAYS = [("deepcopy", copy.deepcopy)] + [("pickle %d" % p, lambda o, p=p: pickle.loads(pickle.dumps(o, p))) for p in range(pickle.HIGHEST_PROTOCOL + 1)]


def put(k, v):
    return ("%s = %r" % (k, v), lambda o: setattr(o, k, v))


def at(o, where):
    for i in where:
        o = o[i]
    return o


def call(what, f):
    """An edit made in place: what it gives is not gone on with."""
    def g(o):
        f(o)
    return (what, g)


def setat(l, i, v):
    l[i] = v


def imul(o, v):
    o *= v


def links(root):
    """Where the nodes of a tree are, by their place in a walk, and what they are linked to."""
    walk = []

    def visit(n):
        walk.append(n)
        for c in n:
            visit(c)
    visit(root)
    place = {id(n): i for i, n in enumerate(walk)}

    def where(n):
        return None if n is None else place.get(id(n), "elsewhere")
    return walk, where


def see_doc(d):
    walk, where = links(d)
    out = []
    for n in walk:
        out.append((type(n).__name__, n.tag(), dict(n.attributes), where(n.parent), where(n.document), where(n.next_sibling), where(n.previous_sibling)))
    ids = sorted({n.attributes.get("id") for n in walk if isinstance(n.attributes.get("id"), str)} | {"a", "b", "c", "gone"})
    out.append([(i, where(d.get_element_by_id(i))) for i in ids])
    out.append([(t, [where(n) for n in d.get_elements_by_tag_name(t)]) for t in ("g", "path", "rect", "*")] if hasattr(d, "get_elements_by_tag_name") else None)
    out.append([c.xml() for c in d])
    return out


def see_node(n):
    """A node without a document."""
    walk, where = links(n)
    return [(type(m).__name__, m.tag(), dict(m.attributes), where(m.parent)) for m in walk] + [n.xml()]


def drawn(n):
    out = []
    for c in links(n)[0]:
        if hasattr(c, "d") and type(c).__name__ in ("Rect", "Circle", "Ellipse", "Line", "Polyline", "Polygon", "Path"):
            out.append(asked.answer(lambda o: str(o.d()), c))
    return out


def explore(ctx, name, makes, edits, see, depth, equal=True):
    """makes, edits as in mc/asked.py; see gives plain data. Every object, history of up to depth edits, way of copying,
    further edit and side it is made on."""
    last = [None] + list(range(len(edits)))

    def histories():
        for i in range(len(makes)):
            for n in range(depth + 1):
                for p in itertools.product(range(len(edits)), repeat=n):
                    for w in range(len(WAYS)):
                        yield (i, p, w)

    def run(i, p, rec):
        o = makes[i][1]()
        for k in p:
            o = step(o, k, rec)
        return o

    def step(o, k, rec):
        rec.step()
        r = asked.answer(edits[k][1], o)
        return o if r is None or isinstance(r, str) else r

    def fn(case, rec):
        i, p, w = case
        rec.state((i, p))
        rec.outcome((i, w))
        what = "%s after %s, %s" % (makes[i][0], ", ".join(edits[k][0] for k in p) or "nothing", WAYS[w][0])
        want = see(run(i, p, rec))
        for k in last:
            after = want if k is None else see(step(run(i, p, rec), k, rec))
            for side in (0, 1):
                o = run(i, p, rec)
                c = WAYS[w][1](o)
                rec.compared()
                if type(c) is not type(o) or c is o:
                    rec.fail("type", "%s: the copy of %s is %s" % (what, type(o).__name__, type(c).__name__ if c is not o else "the very same object"))
                    return
                if equal and not (c == o and o == c) or equal and c != o:
                    rec.fail("equal", "%s: the copy is not equal to what it was made from" % what)
                    return
                if k is None:
                    if not asked.near(see(c), want):
                        rec.fail("copy", "%s: the copy is %r, the original %r" % (what, see(c), want))
                        return
                    if not asked.near(see(o), want):
                        rec.fail("original", "%s: the original became %r, was %r" % (what, see(o), want))
                        return
                    continue
                pair = [o, c]
                pair[side] = step(pair[side], k, rec)
                if not asked.near(see(pair[side]), after):
                    rec.fail("edit", "%s: then %s of the %s gives %r, without the copying %r" % (what, edits[k][0], ("original", "copy")[side], see(pair[side]), after))
                    return
                if not asked.near(see(pair[1 - side]), want):
                    rec.fail("shared", "%s: then %s of the %s makes the other %r, was %r" % (what, edits[k][0], ("original", "copy")[side], see(pair[1 - side]), want))
                    return
    ctx.explore(name, histories, fn, timeout=20.0, bound="%d objects x all histories of up to %d of %d edits x deepcopy and pickle protocols 0 to %d x one more edit of either side" % (len(makes), depth, len(edits), pickle.HIGHEST_PROTOCOL))


def P51(ctx):
    import svgio.basic as B
    import svgio.path as S
    import svgio.nodes as N
    depth = ctx.pick(1, 2)

    # paths, with views held and not
    def edit_point(p):
        p[1].end.x += 3

    texts = ["M1,2L3,4z", "m1,1 2,3c1,1 4,2 5,0s3,3 4,4", "M0,0A5,3 30 1 0 4,4zl3,3", "M0,0Q1,5 4,0T8,0M9,9h3v4z", "M3,3", ""]
    edits = [("*= scale(2)", lambda p: imul(p, "scale(2)")), ("reverse", lambda p: p.reverse() and None), ("append z", lambda p: p.append(S.Close()) or None), ("line", lambda p: p.line((7, 1)) and None), ("smooth", lambda p: p.smooth_cubic((7, 1), (2, 2)) and None),
             ("del 0", lambda p: p.__delitem__(0)), ("move the end of 1", edit_point), ("1.end = 9,9", lambda p: setattr(p[1], "end", B.Point(9, 9))), ("arcs to curves", lambda p: p.approximate_arcs_with_cubics() and None), ("first subpath reversed", lambda p: p.subpath(0).reverse() and None)]
    edits = [(n, lambda o, f=f: f(o) and None) for n, f in edits]

    def see_path(p):
        return [snap_path(p), p.d(), p.d(relative=True), p.length(error=1e-4) if len(p) else 0, p.bbox() if len(p) > 1 else None, [s.d() for s in p.as_subpaths()]]
    explore(ctx, "paths", [(t or "nothing", lambda t=t: S.Path(t)) for t in texts], edits, lambda p: asked.answer(see_path, p), depth)

    # a subpath keeps its path
    def see_sub(s):
        return [s.d(), snap_path(s), len(s)]
    sub_edits = [("reverse", lambda s: s.reverse() and None), ("0.end", lambda s: setattr(s[0], "end", B.Point(8, 8))), ("*=", lambda s: imul(s, "scale(2)"))]
    explore(ctx, "subpaths", [("%s of %s" % (i, t), lambda t=t, i=i: S.Path(t).subpath(i)) for t in texts[:4] for i in range(2) if i < len(list(S.Path(t).as_subpaths()))],
            [(n, lambda o, f=f: f(o) and None) for n, f in sub_edits], lambda s: asked.answer(see_sub, s), depth, equal=False)

    # segments
    segs = [("move", lambda: S.Move(B.Point(1, 1), B.Point(2, 3))), ("line", lambda: S.Line(B.Point(1, 1), B.Point(2, 3))), ("close", lambda: S.Close(B.Point(1, 1), B.Point(2, 3))),
            ("quad", lambda: S.QuadraticBezier((1, 1), (2, 5), (4, 0))), ("cubic", lambda: S.CubicBezier((1, 1), (2, 5), (4, 0), (7, 7))), ("arc", lambda: S.Arc((0, 0), 5, 3, 30, 1, 0, (4, 4))), ("whole", lambda: S.Arc(start=(5, 0), end=(5, 0), center=(0, 0), ccw=False, sweep=6.283185307179586))]
    seg_edits = [asked.set_point("start", -3, 2), asked.set_point("end", 9, 9), asked.set_point("control", 2, -4), asked.set_point("control2", 2, -4), asked.move_point("start", 1, 1), asked.move_point("end", 1, 1), ("*= rotate", lambda s: imul(s, "rotate(30)")), ("*= scale", lambda s: imul(s, "scale(2,-1)")), ("reverse", lambda s: s.reverse() and None)]

    def see_seg(s):
        return [snap(s), [tuple(s.point(t)) for t in (0.0, 0.3, 1.0)], s.d(), s.length(error=1e-4), s.bbox()]
    explore(ctx, "segments", segs, [(n, lambda o, f=f: f(o) and None) for n, f in seg_edits], lambda s: [snap(s), asked.answer(see_seg, s)], depth)

    # values
    def chans(c):
        return [c.value, str(c), c.hex, c.red, c.green, c.blue, c.alpha, c.hue]
    explore(ctx, "colours", [(str(v), lambda v=v: B.Color(v)) for v in ("red", "#1234", "rgba(10,200,30,0.5)", "hsl(120,50%,30%)", "none")],
            [put("red", 9), put("alpha", 3), put("opacity", 0.25), put("hue", 200), put("lightness", 0.25), put("rgb", 0x123456), put("value", None)], lambda c: asked.answer(chans, c), ctx.pick(2, 3))
    explore(ctx, "lengths", [(v, lambda v=v: B.Length(v)) for v in ("3mm", "25%", "2em", "0", "-1.5in", "7")],
            [put("amount", 4.5), put("units", "cm"), put("units", "%"), ("*= 2", lambda o: imul(o, 2)), ("+= 1cm", lambda o: o.__iadd__("1cm"))], lambda l: [l.amount, l.units, str(l), repr(l)], ctx.pick(2, 3), equal=True)
    explore(ctx, "matrices", [(v or "identity", lambda v=v: B.Matrix(v)) for v in ("", "scale(2,3)", "rotate(30,5,5)", "matrix(1,2,3,4,5,6)", "translate(1in,3mm)", "translate(50%,10%)")],
            [("pre_scale", lambda m: m.pre_scale(2) and None), ("post_rotate", lambda m: m.post_rotate(1) and None), ("inverse", lambda m: m.inverse() and None), ("reset", lambda m: m.reset()), put("e", 4.5), ("*=", lambda m: imul(m, "skewX(30)")), ("render", lambda m: m.render(ppi=96, width=100, height=50) and None)],
            lambda m: asked.answer(lambda m: [m[i] if isinstance(m[i], (int, float)) else str(m[i]) for i in range(6)], m), ctx.pick(2, 3))
    explore(ctx, "points", [("%s,%s" % v, lambda v=v: B.Point(*v)) for v in ((1, 2), (-3.5, 0), (1e9, 1e-9))], [put("x", 4), put("y", -2.5), ("*=", lambda p: imul(p, "rotate(90)")), ("+=", lambda p: p.__iadd__((1, 2)) and None), ("[0] =", lambda p: setat(p, 0, 7))],
            lambda p: asked.answer(lambda p: [p.x, p.y, p[0], p[1], complex(p.x, p.y)], p), ctx.pick(2, 3))
    explore(ctx, "angles", [(v, lambda v=v: B.Angle.parse(v)) for v in ("30deg", "1rad", "0.25turn", "100grad", "-90", "720deg")], [("*", lambda a: B.Angle(a * 2)), ("+", lambda a: B.Angle(a + B.Angle.degrees(10)))],
            lambda a: asked.answer(lambda a: [float(a), a.as_degrees, a.as_radians, a.as_turns, a.as_gradians], a), depth)

    def box(v, aspect=None):
        return lambda: B.Viewbox(v, aspect)

    def boxed(v):
        return [v.x, v.y, v.width, v.height, v.preserve_aspect_ratio, v.transform(B.Rect(0, 0, 100, 50)) if hasattr(B, "Rect") else None]
    explore(ctx, "viewboxes", [("0 0 10 20", box("0 0 10 20")), ("1 2 30 40", box("1 2 30 40", "xMinYMax slice"))], [put("x", 3), put("width", 9), put("preserve_aspect_ratio", "none")], lambda v: asked.answer(boxed, v), depth, equal=False)

    # elements of their own
    def attr(k, v):
        return ("@%s = %r" % (k, v), lambda n: setat(n.attributes, k, v))

    def drop(k):
        return ("without @%s" % k, lambda n: n.attributes.pop(k, None) and None)

    def add(n):
        n.rect(x=1, width=2, height=3)
    els = [("Rect", lambda: N.Rect(1, 2, 30, 40)), ("rect", lambda: N.Rect(x=1, y=2, width=30, height=40, rx=3)), ("Circle", lambda: N.Circle(cx=1, cy=2, r=5)), ("Ellipse", lambda: N.Ellipse(cx=1, cy=2, rx=5, ry=4)), ("Line", lambda: N.Line(x1=1, y1=2, x2=5, y2=4)),
           ("Polyline", lambda: N.Polyline(points="1,2 3,4 5,0")), ("Polygon", lambda: N.Polygon(points="1,2 3,4 5,0")), ("Path", lambda: N.Path(d="M0,0L1,1")), ("Group", lambda: N.Group(id="g")), ("Image", lambda: N.Image(href="data:text/plain;base64,aGk=")), ("Text", lambda: N.Text(x=3))]
    el_edits = [attr("x", "9"), attr("fill", "red"), attr("transform", "scale(2)"), attr("d", "M5,5L9,9"), attr("points", "0,0 9,9 5,0"), attr("r", "7"), drop("x"), drop("rx"), ("child", add)]
    explore(ctx, "elements", els, el_edits, lambda n: [see_node(n), drawn(n)], depth, equal=False)

    # documents: whole, built and edited in each way
    xml = '<svg xmlns="http://www.w3.org/2000/svg" id="a">t<g id="b" transform="scale(2)"><rect x="1" width="3" height="4"/>u<other k="v">w</other></g>s<path id="c" d="M0,0L1,1"/></svg>'
    twice = '<svg id="a"><g id="b"/><g id="b"><circle r="3" id="c"/></g></svg>'

    def built():
        d = load("<svg/>")
        d[0].g(id="b")
        d[0][0].rect(id="c", x=1, width=2, height=3)
        d[0].path(id="a", d="M0,0L5,5")
        return d
    docs = [("loaded", lambda: load(xml)), ("with an id twice", lambda: load(twice)), ("built", built), ("empty", lambda: N.Document())]
    doc_edits = [("id", lambda d: setat(d[0].attributes, "id", "gone")), ("drop id", lambda d: d[0][0].attributes.pop("id", None) and None), ("attribute", lambda d: setat(d[0][0].attributes, "x", "9")), ("builder", lambda d: d[0].circle(id="gone", r=3) and None), ("builder below", lambda d: d[0][0].rect(id="a", x=3) and None),
                 ("remove first", lambda d: d[0].remove(d[0][0])), ("del last", lambda d: d[0].__delitem__(-1)), ("swap", lambda d: d[0].reverse()), ("root builder", lambda d: d.svg(id="c") and None)]
    explore(ctx, "documents", docs, [(n, lambda o, f=f: f(o) and None) for n, f in doc_edits], lambda d: [see_doc(d), drawn(d)], ctx.pick(1, 2), equal=False)
    ctx.assumptions = ["copies of single nodes of a document, and copy.copy, are left out"]
