"""The outlines of the basic shape elements against the path data SVG gives for them.

P48 outlines, P49 points, angles and arcs of circles and ellipses, P50 viewBoxes of elements.
"""
import itertools
import math

from . import asked
from . import again
from . import large
from . import obs
from . import ref_path
from .core import close_pt
from .dom import T, bs, load, nd, to_xml
from .given import see

TAU = 2 * math.pi
PX = {"": 1.0, "px": 1.0, "pt": 4 / 3., "pc": 16.0, "in": 96.0, "cm": 96 / 2.54, "mm": 96 / 25.4}
TOL = 3e-6  # the library keeps 1/25.4 as 0.0393701


def num(v):
    """User units of an attribute value of this file: a number, or text of a number and a unit."""
    if not isinstance(v, str):
        return float(v)
    n = v.strip()
    for u in sorted(PX, key=len, reverse=True):
        if u and n.endswith(u):
            return float(n[:-len(u)]) * PX[u]
    return float(n)


def outline(tag, a):
    """Commands of the path of an element (SVG 2, chapter 10), None without size."""
    def g(k, default=0.0):
        return num(a[k]) if a.get(k) is not None else default
    if tag == "line":
        return (("M", ((g("x1"), g("y1")),)), ("L", ((g("x2"), g("y2")),)))
    if tag in ("circle", "ellipse"):
        cx, cy = g("cx"), g("cy")
        rx, ry = (g("r"), g("r")) if tag == "circle" else (g("rx"), g("ry"))
        if rx <= 0 or ry <= 0:
            return None
        return (("M", ((cx + rx, cy),)),) + tuple(("A", ((rx, ry, 0, 0, 1, x, y),)) for x, y in ((cx, cy + ry), (cx - rx, cy), (cx, cy - ry), (cx + rx, cy))) + (("Z", ()),)
    if tag == "rect":
        x, y, w, h = g("x"), g("y"), g("width"), g("height")
        if w <= 0 or h <= 0:
            return None
        rx = g("rx", g("ry"))
        ry = g("ry", g("rx"))
        rx, ry = min(rx, w / 2), min(ry, h / 2)
        if rx == 0 or ry == 0 or rx < 0 and ry < 0:
            return (("M", ((x, y),)), ("L", ((x + w, y),)), ("L", ((x + w, y + h),)), ("L", ((x, y + h),)), ("Z", ()))
        return (("M", ((x + rx, y),)), ("L", ((x + w - rx, y),)), ("A", ((rx, ry, 0, 0, 1, x + w, y + ry),)), ("L", ((x + w, y + h - ry),)), ("A", ((rx, ry, 0, 0, 1, x + w - rx, y + h),)),
                ("L", ((x + rx, y + h),)), ("A", ((rx, ry, 0, 0, 1, x, y + h - ry),)), ("L", ((x, y + ry),)), ("A", ((rx, ry, 0, 0, 1, x + rx, y),)), ("Z", ()))
    pts = a["model"]
    if not pts:
        return None
    return (("M", (pts[0],)),) + tuple(("L", (p,)) for p in pts[1:]) + ((("Z", ()),) if tag == "polygon" else ())


MATS = [(None, (1, 0, 0, 1, 0, 0)), ("translate(3,-4)", (1, 0, 0, 1, 3, -4)), ("scale(2,-1)", (2, 0, 0, -1, 0, 0)), ("rotate(90)", (0, 1, -1, 0, 0, 0)), ("matrix(1 0.5 -2 3 4 5)", (1, .5, -2, 3, 4, 5)),
        ("translate(3,-4) scale(2)", (2, 0, 0, 2, 3, -4)), ("skewX(45)", (1, 0, 1, 1, 0, 0))]


def ap(m, p):
    return (m[0] * p[0] + m[2] * p[1] + m[4], m[1] * p[0] + m[3] * p[1] + m[5])


def close_abs(p, q, tol):
    return abs(p[0] - q[0]) <= tol and abs(p[1] - q[1]) <= tol


def pieces(refs):
    """What is drawn: lines of some length and arcs, closes as lines."""
    out = []
    for r in refs:
        if r[0] in "LZ" and not close_pt(r[1], r[2], 1e-9):
            out.append(("L", r[1], r[2]))
        elif r[0] in "A":
            out.append(r)
    return out


def seg_pieces(segs):
    out = []
    for s in segs:
        k = obs.kind(s)
        if k in "LZ" and not close_pt(s.start, s.end, 1e-9):
            out.append(("L", s))
        elif k not in "MLZ":
            out.append((k, s))
    return out


def check(n, tag, attrs, m, what, rec, key="shape"):
    """The element draws what its attributes say, with and without its transform, and asking changes nothing."""
    cmds = outline(tag, attrs)
    refs = ref_path.run(cmds).segs if cmds else []
    before = dict(n.attributes)
    for turn in range(2):
        for moved in (False, True, None):
            mat = MATS[0][1] if moved is False else m
            segs = n.segments() if moved is None else n.segments(moved)
            rec.step()
            rec.compared(3)
            segs = list(segs)
            where = "%s, segments(%s)" % (what, "" if moved is None else moved)
            if (not refs) != (not segs):
                return rec.fail(key + " drawn", "%s: %r" % (where, segs))
            bad = obs.linkage(segs)
            if bad:
                return rec.fail(key + " linkage", "%s: %s" % (where, bad))
            want, got = pieces(refs), seg_pieces(segs)
            if [w[0] for w in want] != [g[0] for g in got]:
                return rec.fail(key + " kinds", "%s: %r, expected %s" % (where, segs, want))
            if refs and (obs.kind(segs[0]) != "M" or (obs.kind(segs[-1]) == "Z") != (tag not in ("line", "polyline"))):
                return rec.fail(key + " ends", "%s: %r" % (where, segs))
            size = max([1.0] + [abs(c) for r in refs for p in (r[1], r[-1]) if p is not None for c in ap(mat, p)])
            if refs and not close_pt(segs[0].end, ap(mat, refs[0][-1]), TOL * size):
                return rec.fail(key + " start", "%s: begins at %s" % (where, segs[0].end))
            for w, (k, s) in zip(want, got):
                for t in (0, 0.3, 0.5, 0.8, 1):
                    p, q = ap(mat, ref_path.seg_point(w, t)), s.point(t)
                    if not (abs(p[0] - q[0]) <= TOL * size and abs(p[1] - q[1]) <= TOL * size):
                        return rec.fail(key + " place", "%s: %r at %s is %s, expected %s" % (where, s, t, q, p))
            # the box, of the pieces moved
            box = n.bbox() if moved is None else n.bbox(moved)
            pts = []
            for w in [r for r in refs if r[0] != "M"]:
                if w[0] == "A":
                    pts += arc_box(w, mat)
                else:
                    pts += [ap(mat, w[1]), ap(mat, w[2])]
            if (box is None) != (not pts):
                return rec.fail(key + " box", "%s: box %s" % (where, box))
            if pts:
                e = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
                if any(abs(x - y) > 2 * TOL * size for x, y in zip(e, box)):
                    return rec.fail(key + " box", "%s: box %s, expected %s" % (where, box, e))
            # what is done to the answer is not done to the element
            if turn == 0:
                for s in segs:
                    s *= "translate(50,60)"
        # written as path data
        if refs and tag != "path":
            for moved, relative in itertools.product((False, True), (None, False, True)):
                text = n.d(transformed=moved) if relative is None else n.d(relative, moved)
                d, segs = bs_path()(text), n.segments(moved)
                rec.step()
                if not (len(d) == len(segs) and all(close_pt(x.end, y.end, TOL * size) for x, y in zip(d, segs))):
                    return rec.fail(key + " d", "%s: d(relative=%s, transformed=%s) is %r" % (what, relative, moved, text))
                if relative is not None and any(c.isalpha() and c not in "eE" and c.islower() != relative and c not in "Mm" for c in text):
                    return rec.fail(key + " letters", "%s: d(relative=%s, transformed=%s) is %r" % (what, relative, moved, text))
    if dict(n.attributes) != before:
        rec.fail(key + " mutates", "%s: attributes became %s" % (what, n.attributes))


def bs_path():
    import svgio.path
    return svgio.path.Path


def arc_box(w, m):
    """Extreme points of an arc moved by a matrix."""
    par = ref_path.arc_params(w)
    cx, cy, rx, ry, phi, t1, dt = par
    a = (rx * math.cos(phi), rx * math.sin(phi))
    b = (-ry * math.sin(phi), ry * math.cos(phi))
    out = [ap(m, w[1]), ap(m, w[-1])]
    for i in (0, 1):
        u, v = m[i] * a[0] + m[i + 2] * a[1], m[i] * b[0] + m[i + 2] * b[1]
        t = math.atan2(v, u)
        for k in range(-4, 5):
            for s in (t + k * TAU / 2,):
                f = (s - t1) / dt
                if 0 <= f <= 1:
                    x = (cx + math.cos(s) * a[0] + math.sin(s) * b[0], cy + math.cos(s) * a[1] + math.sin(s) * b[1])
                    out.append(ap(m, x))
    return out


ORDER = {"rect": ("x", "y", "width", "height", "rx", "ry"), "circle": ("cx", "cy", "r"), "ellipse": ("cx", "cy", "rx", "ry"), "line": ("x1", "y1", "x2", "y2"),
         "polyline": ("points",), "polygon": ("points",)}
CLS = {"rect": "Rect", "circle": "Circle", "ellipse": "Ellipse", "line": "Line", "polyline": "Polyline", "polygon": "Polygon"}
WAYS = ("class", "positional", "loaded", "below", "builder", "edited")


def make(tag, attrs, way):
    """The element with these attributes; None if it cannot be made that way."""
    N = nd()
    real = {k: v for k, v in attrs.items() if v is not None and k != "model"}
    text = {k: v if isinstance(v, str) else repr(v) for k, v in real.items()}
    if way in ("loaded", "below", "edited") and any(isinstance(v, (list, tuple)) for v in real.values()):
        return None
    if way == "class":
        return getattr(N, CLS[tag])(**real)
    if way == "positional":
        names = ORDER[tag]
        k = 0
        while k < len(names) and names[k] in real:
            k += 1
        rest = {n: v for n, v in real.items() if n not in names[:k]}
        return getattr(N, CLS[tag])(*[real[n] for n in names[:k]], **rest)
    if way == "loaded":
        return load(to_xml(T("svg", {}, [T(tag, text)])))[0][0]
    if way == "below":
        up = {"x": "9", "y": "9", "width": "5", "height": "5", "cx": "7", "cy": "7", "r": "7", "rx": "7", "ry": "7", "x1": "6", "points": "1,1 9,9", "transform": "scale(7)"}
        return load(to_xml(T("svg", {"viewBox": "0 0 10 10", "width": "5"}, [T("g", up, [T("a", {"transform": "rotate(30)"}, [T(tag, text)])])])))[0][0][0][0]
    if way == "builder":
        doc = load(to_xml(T("svg", {}, [])))
        getattr(doc[0], tag)(**real)
        return doc[0][-1]
    n = load(to_xml(T("svg", {}, [T(tag, {"x": "1", "y": "2", "width": "3", "height": "4", "rx": "1", "ry": "1", "cx": "5", "cy": "5", "r": "5", "x2": "8", "y1": "3", "points": "5,5 6,6", "transform": "scale(3)"})])))[0][0]
    n.segments(), n.bbox(), n.d()
    n.attributes.clear()
    n.attributes.update(text)
    return n


def P48(ctx):
    """The outline of every basic shape."""
    B = bs()

    def run(case, rec):
        tag, attrs, way, mi = case
        attrs = dict(attrs)
        if mi:
            attrs["transform"] = MATS[mi][0]
        n = make(tag, attrs, way)
        if n is None:
            return rec.skip("a list of points is no text")
        rec.state(case)
        rec.outcome((tag, way, mi))
        check(n, tag, attrs, MATS[mi][1], "%s %s %s" % (way, tag, {k: v for k, v in attrs.items() if k != "model"}), rec)

    def rects():
        pos = [None, "0", "-2.5"]
        sides = ["10", "0.5", "0", "1e2"]
        radii = [None, "0", "0.2", "4", "5", "7", "1e3"]
        ways = ctx.pick(("loaded", "class", "edited"), WAYS)
        for w, h, rx, ry in itertools.product(sides, sides, radii, radii):
            for i, (x, y) in enumerate(itertools.product(pos, pos) if ctx.thorough else (("0", "-2.5"), (None, "3"))):
                for j, way in enumerate(ways):
                    yield ("rect", dict(x=x, y=y, width=w, height=h, rx=rx, ry=ry), way, (i + j) % len(MATS) if not ctx.thorough else 0)
    ctx.explore("rects", rects, run, bound="all widths, heights and both radii of 4 x 4 x 7 x 7 values, radii absent, zero, small, half a side and larger")

    def nothings():
        """Sides and radii of zero and less, as numbers and as text."""
        v = [0, 0.0, "0", "0.0", -3, "-3", "-0.5", 10, "10"]
        for way in WAYS:
            for w, h in itertools.product(v, v):
                yield ("rect", dict(x="1", y=2, width=w, height=h), way, 0)
                yield ("ellipse", dict(cx="1", cy=2, rx=w, ry=h), way, 0) if num(w) >= 0 or num(h) < 0 or num(h) == 0 else ("circle", dict(cx="1", cy=2, r=w), way, 0)
            for a, b in itertools.product([None] + v, repeat=2):
                if (a is None or num(a) >= 0) and (b is None or num(b) >= 0) or (a is None or num(a) < 0) and (b is None or num(b) < 0):
                    for w, h in ((10, 6), ("30", 40)):
                        yield ("rect", dict(x=1, y="2", width=w, height=h, rx=a, ry=b), way, 0)
            for a in v:
                yield ("circle", dict(cx=1, cy="2", r=a), way, 0)
    ctx.explore("nothings", nothings, run, bound="sides and radii of zero, less than zero and more, of 9 numbers and texts, x 6 ways to make them")

    def rounds():
        r = ["0", "0.5", "3", "5e2", None]
        c = [None, "0", "7.5", "-2"]
        for way in WAYS:
            for cx, cy in itertools.product(c, c):
                for a in r:
                    yield ("circle", dict(cx=cx, cy=cy, r=a), way, 0)
                    for b in r:
                        yield ("ellipse", dict(cx=cx, cy=cy, rx=a, ry=b), way, 0)
    ctx.explore("rounds", rounds, run, bound="circles and ellipses of 4 x 4 centres x 5 (5 x 5) radii x 6 ways to make them")

    def lines():
        v = [None, "0", "1", "-2.5e1"]
        for a in itertools.product(v, repeat=4):
            for way in WAYS:
                yield ("line", dict(zip(("x1", "y1", "x2", "y2"), a)), way, 0)
    ctx.explore("lines", lines, run, bound="lines between 16 x 16 points, coordinates also absent x 6 ways to make them")

    # every transform and unit
    base = {"rect": dict(x="1", y="2", width="10", height="6"), "rounded": dict(x="1", y="2", width="10", height="6", rx="2", ry="1"), "circle": dict(cx="3", cy="4", r="5"),
            "ellipse": dict(cx="3", cy="4", rx="5", ry="2"), "line": dict(x1="1", y1="2", x2="5", y2="-3"), "polyline": dict(points="1,2 5,6 -3,4", model=((1., 2.), (5., 6.), (-3., 4.))),
            "polygon": dict(points="1,2 5,6 -3,4", model=((1., 2.), (5., 6.), (-3., 4.)))}

    def transforms():
        for tag, a in base.items():
            for mi in range(len(MATS)):
                for way in WAYS:
                    yield ("rect" if tag == "rounded" else tag, a, way, mi)
    ctx.explore("transforms", transforms, run, bound="7 shapes x 7 transforms x 6 ways to make them")

    # numbers and objects of the library as attributes
    def objects():
        for tag, a in base.items():
            names = [k for k in a if k != "model"]
            forms = ("float", "Length", "Length in mm", "Length of a number") if "points" not in names else ("points", "point texts", "complex", "tuples")
            for form in forms:
                for n in range(1, len(names) + 1) if ctx.thorough or len(names) < 5 else (1, 2, len(names)):
                    for some in itertools.combinations(names, n):
                        for mi in ctx.pick((0, 1, 4), range(len(MATS))):
                            for asmatrix in (False, True) if mi else (False,):
                                for way in ("class", "builder", "update", "item"):
                                    yield (tag, form, some, mi, asmatrix, way)

    def formed(form, v, ps):
        if form == "float":
            return float(v), None
        if form == "Length":
            return B.Length(v), None
        if form == "Length in mm":
            return B.Length(v + "mm"), v + "mm"
        if form == "Length of a number":
            return B.Length(float(v)), None
        return {"points": lambda: [B.Point(*q) for q in ps], "point texts": lambda: ["%g,%g" % q for q in ps], "complex": lambda: [complex(*q) for q in ps], "tuples": lambda: tuple(ps)}[form](), None

    def obj(case, rec):
        key, form, some, mi, asmatrix, way = case
        tag = "rect" if key == "rounded" else key
        a = dict(base[key])
        model = dict(a)
        for k in some:
            a[k], text = formed(form, a[k], a.get("model"))
            if text:
                model[k] = text
        a.pop("model", None)
        if mi:
            a["transform"] = B.Matrix(MATS[mi][0]) if asmatrix else MATS[mi][0]
        given = {k: [see(v) for v in a[k]] if isinstance(a[k], (list, tuple)) else see(a[k]) for k in a}
        doc = load(to_xml(T("svg", {}, [])))
        if way == "class":
            n = getattr(nd(), CLS[tag])(**a)
        elif way == "builder":
            getattr(doc[0], tag)(**a)
            n = doc[0][-1]
        else:
            n = make(tag, {k: "9" for k in ORDER[tag]} if "points" not in a else {"points": "5,5 6,6"}, "class")
            n.segments(), n.bbox()
            n.attributes.clear()
            if way == "update":
                n.attributes.update(a)
            else:
                for k, v in a.items():
                    n.attributes[k] = v
        rec.state(case)
        rec.outcome((key, form, way))
        what = "%s %s with %s as %s%s" % (way, tag, ", ".join(some), form, ", a Matrix to move it" if asmatrix else "")
        check(n, tag, model, MATS[mi][1], what, rec, "objects")
        rec.compared()
        now = {k: [see(v) for v in a[k]] if isinstance(a[k], (list, tuple)) else see(a[k]) for k in a}
        if now != given:
            rec.fail("objects given", "%s: what was given became %s, was %s" % (what, now, given))
    ctx.explore("objects", objects, obj, bound="subsets of attributes of 7 shapes as numbers, lengths and points x 4 ways x transforms as text or Matrix")

    def units():
        for tag, a in base.items():
            for k in a:
                if k not in ("points", "model"):
                    for u in PX:
                        for s in ("3%s", " 3%s ", "0.25%s", "+1.5%s", "25e-1%s") if u else ("3", "25e-1"):
                            yield ("rect" if tag == "rounded" else tag, dict(a, **{k: s % u if u else s}), "loaded", 0)
    ctx.explore("units", units, run, bound="every length of 7 shapes in 7 units, 5 spellings")

    # points
    spellings = [lambda ps: " ".join("%g,%g" % p for p in ps), lambda ps: " ".join("%g %g" % p for p in ps), lambda ps: ",".join("%g,%g" % p for p in ps),
                 lambda ps: "\n".join("%g ,\t%g" % p for p in ps) + " ", lambda ps: "  " + " , ".join("%g  %g" % p for p in ps), lambda ps: "".join("%+.3g%+.3g" % p for p in ps),
                 lambda ps: " ".join("%.3e,%.3e" % p for p in ps), lambda ps: " ".join(("%g,%g" % p).replace("0.", ".") for p in ps),
                 lambda ps: list(ps), lambda ps: [list(p) for p in ps], lambda ps: [B.Point(p) for p in ps], lambda ps: [complex(*p) for p in ps], lambda ps: [c for p in ps for c in p], lambda ps: tuple(ps)]

    def polys():
        grid = [(0., 0.), (1., 0.), (-2.5, 3.), (0.5, -100.)]
        for n in range(0, ctx.pick(4, 5)):
            for ps in itertools.product(grid, repeat=n):
                for i in range(len(spellings)):
                    for tag in ("polyline", "polygon"):
                        for way in WAYS if n < 3 else ("class", "loaded"):
                            yield (tag, ps, i, way)

    def poly(case, rec):
        tag, ps, i, way = case
        pts = spellings[i](ps)
        attrs = dict(points=pts, model=ps)
        n = make(tag, attrs, way)
        if n is None:
            return rec.skip("a list of points is no text")
        rec.state(case)
        rec.outcome((tag, len(ps), i))
        before = repr(pts)
        check(n, tag, attrs, MATS[0][1], "%s %s %r" % (way, tag, pts), rec, "points")
        if repr(pts) != before:
            rec.fail("points changed", "%s %s %s: the list of points became %r" % (way, tag, before, pts))
    ctx.explore("points", polys, poly, bound="all polylines and polygons of up to %d of 4 points x 14 ways to write or give them" % ctx.pick(3, 4))

    # a coordinate too many
    def odds():
        grid = [(0., 0.), (1., 0.), (-2.5, 3.), (0.5, -100.)]
        for n in range(0, ctx.pick(4, 5)):
            for ps in itertools.product(grid, repeat=n):
                for extra in (7., 0., -1.5):
                    for i in (0, 1, 2, 3, 4, 6, 12):
                        for tag in ("polyline", "polygon"):
                            for way in WAYS if n < 2 else ("class", "loaded"):
                                yield (tag, ps, extra, i, way)

    def odd(case, rec):
        tag, ps, extra, i, way = case
        pts = spellings[i](ps)
        pts = pts + [extra] if i == 12 else (pts.rstrip() + (", " if i == 2 and ps else " ") + "%g" % extra)
        attrs = dict(points=pts, model=ps)
        n = make(tag, attrs, way)
        if n is None:
            return rec.skip("a list of points is no text")
        rec.state(case)
        rec.outcome((tag, len(ps), i))
        check(n, tag, attrs, MATS[0][1], "%s %s %r" % (way, tag, pts), rec, "odd")
    ctx.explore("odd", odds, odd, bound="all polylines and polygons of up to %d of 4 points and one coordinate more x 7 ways to write or give them" % ctx.pick(3, 4))

    def many(case, rec):
        n, tag, i = case
        ps = tuple((float(i % 17), float(i * i % 23) - i) for i in range(n))
        rec.state(case)
        rec.outcome((tag, i))
        attrs = dict(points=spellings[i](ps), model=ps)
        check(make(tag, attrs, "class" if i >= 8 else "loaded"), tag, attrs, MATS[0][1], "%s of %d points" % (tag, n), rec, "many points")
    ctx.explore("many points", lambda: ((n, t, i) for n in large.counts(ctx, 1025) for t in ("polyline", "polygon") for i in ((0, 2, 8, 12) if n < 257 or ctx.thorough else (0,))), many, timeout=60,
                bound="up to %d points and around powers of two to 1024, as text, tuples and numbers" % (ctx.pick(20, 70) - 1))

    # sizes
    def sizes():
        for tag, a in base.items():
            for e in range(-9, 10, ctx.pick(3, 1)):
                b = {k: repr(float(v) * 10.0 ** e) for k, v in a.items() if k not in ("points", "model")}
                if "points" in a:
                    b["model"] = tuple((x * 10.0 ** e, y * 10.0 ** e) for x, y in a["model"])
                    b["points"] = " ".join("%r,%r" % p for p in b["model"])
                yield (tag, b, e)

    def size(case, rec):
        tag, a, e = case
        tag = "rect" if tag == "rounded" else tag
        rec.state(case)
        rec.outcome((tag, e))
        rec.step()
        n = make(tag, a, "loaded")
        tiny = 1e-9 * 10.0 ** e  # lines of the outline that have no length but for rounding
        got = [s for s in n.segments(False) if not (obs.kind(s) == "M" or obs.kind(s) in "LZ" and close_abs(s.start, s.end, tiny))]
        want = [r for r in ref_path.run(outline(tag, a)).segs if not (r[0] == "M" or r[0] in "LZ" and close_abs(r[1], r[2], tiny))]
        rec.compared(len(want))
        if [obs.kind(s) for s in got] != [r[0] for r in want]:
            return rec.fail("size kinds", "%s %s: %r" % (tag, a, got))
        for s, w in zip(got, want):
            for t in (0, 0.25, 0.5, 1):
                p, q = ref_path.seg_point(w, t), s.point(t)
                if not close_abs(p, q, 1e-6 * 10.0 ** e):
                    return rec.fail("size place", "%s %s: %r at %s is %s, expected %s" % (tag, a, s, t, q, p))
    ctx.explore("sizes", sizes, size, bound="7 shapes at sizes of 1e-9 to 1e9")

    # asking, editing and asking again
    srcs = [(("rect", "loaded"), ("rect", base["rounded"])), (("circle", "loaded"), ("circle", base["circle"])), (("polygon", "class"), ("polygon", base["polygon"])), (("line", "builder"), ("line", base["line"])), (("ellipse", "class"), ("ellipse", base["ellipse"]))]

    def build(src):
        tag, way = src
        return make(tag, base["rounded" if tag == "rect" else tag], way)

    def same(n, want, rec, what):
        check(n, want[0], want[1], MATS[0][1], what, rec, "history")

    def attr(k, v):
        def f(n):
            n.segments(), n.bbox()
            n.attributes[k] = v
        return ("%s=%s" % (k, v), f)

    def bend(n):
        for s in n.segments():
            s *= "scale(3)"
    again.explore(ctx, "histories", srcs, build, same, [attr("rx", "3"), attr("r", "9"), attr("transform", "scale(2)"), attr("points", "0,0 9,9"), ("segments scaled", bend)], ctx.pick(3, 4))

    # one element edited step by step
    edits = [("width", "20"), ("rx", "8"), ("ry", None), ("x", "-3"), ("height", "0"), ("height", "6"), ("transform", "scale(2,-1)"), ("transform", None)]

    def programs():
        for n in range(1, ctx.pick(4, 5)):
            for p in itertools.product(range(len(edits)), repeat=n):
                yield p

    def program(p, rec):
        a = dict(base["rounded"])
        n = make("rect", a, "loaded")
        m = MATS[0][1]
        rec.state(p)
        for i in p:
            k, v = edits[i]
            if v is None:
                n.attributes.pop(k, None)
                a.pop(k, None)
            else:
                n.attributes[k] = v
                a[k] = v
            m = MATS[2][1] if "transform" in a else MATS[0][1]
            rec.outcome(k)
            check(n, "rect", a, m, "rect after %s" % [edits[j] for j in p], rec, "edited")
    ctx.explore("edits", programs, program, bound="every sequence of up to %d of 8 edits of a rounded rect, drawn after each" % ctx.pick(3, 4))
    ctx.assumptions = ["lengths without context (no percentages, em or viewport units), not one negative radius beside one that is not", "zero-length lines of an outline do not count", "units accepted to 3e-6"]


def P49(ctx):
    """What a circle or ellipse element tells about its ellipse."""
    B = bs()
    steps = ctx.pick(24, 96)

    def gen():
        for rx, ry in ((1.0, 1.0), (5.0, 3.0), (3.0, 5.0), (100.0, 1.0), (0.25, 40.0)):
            for c in ((0.0, 0.0), (1.0, -2.5)):
                for way in ("class", "loaded", "edited"):
                    yield ("ellipse", c, rx, ry, way)
                    if rx == ry:
                        yield ("circle", c, rx, ry, way)

    def turn(a, b):
        return abs((float(a) - float(b) + math.pi) % TAU - math.pi)

    def one(case, rec):
        tag, (cx, cy), rx, ry, way = case
        a = dict(cx=cx, cy=cy, rx=rx, ry=ry) if tag == "ellipse" else dict(cx=cx, cy=cy, r=rx)
        n = make(tag, a, way)
        rec.state(case)
        rec.outcome((tag, way))
        size = max(rx, ry) + 3
        tol = 1e-9 * size * max(rx / ry, ry / rx)
        before = dict(n.attributes)

        def ok(what, good, msg):
            rec.compared()
            if not good:
                rec.fail(what, "%r: %s" % (case, msg))

        def on(t):
            return (cx + rx * math.cos(t), cy + ry * math.sin(t))
        ok("center", close_pt(n.center, (cx, cy), 1e-12), "center %s" % (n.center,))
        m = n.unit_matrix()
        ok("unit", all(close_pt(m.point_in_matrix_space((math.cos(t), math.sin(t))), on(t), 1e-9 * size) for t in (0, 1, 2, 3, 4, 5)), "unit matrix %s" % [m.a, m.b, m.c, m.d, m.e, m.f])
        for k in range(-steps, steps + 1):
            for e in (0.0, 1e-7, -1e-7):
                t = k * TAU / steps + e
                rec.step()
                w = on(t)
                ok("point_at_t", close_pt(n.point_at_t(t), w, 1e-9 * size), "point_at_t(%r) = %s, expected %s" % (t, n.point_at_t(t), w))
                ok("point", close_pt(n.point(t / TAU), w, 1e-9 * size), "point(%r) = %s, expected %s" % (t / TAU, n.point(t / TAU), w))
                p = B.Point(w)
                ok("t_at_point", turn(n.t_at_point(p), t) < tol, "t_at_point of the point at %r is %r" % (t, n.t_at_point(p)))
                ok("angle_at_point", turn(n.angle_at_point(p), math.atan2(w[1] - cy, w[0] - cx)) < tol, "angle_at_point of %s is %r" % (w, n.angle_at_point(p)))
                q = n.point_at_angle(t)
                u, v = q[0] - cx, q[1] - cy
                r = 1 / math.hypot(math.cos(t) / rx, math.sin(t) / ry)
                ok("point_at_angle", abs(u - r * math.cos(t)) <= tol and abs(v - r * math.sin(t)) <= tol, "point_at_angle(%r) is %s" % (t, q))
        if dict(n.attributes) != before:
            rec.fail("mutates", "%r: attributes became %s" % (case, n.attributes))
    ctx.explore("angles", gen, one, bound="6 circles and ellipses x 2 centres x 3 ways to make them x %d angles of two turns with offsets of 1e-7" % (2 * steps + 1))

    def arcs():
        for c in gen():
            for i in range(0, 24, ctx.pick(2, 1)):
                for j in range(-24, 25, ctx.pick(5, 1)):
                    if j:
                        yield (c, i, j)

    def round_(case, rec):
        """A whole turn and more: drawn once, to where it was asked to end."""
        (tag, (cx, cy), rx, ry, way), i, j = case
        n = make(tag, dict(cx=cx, cy=cy, rx=rx, ry=ry) if tag == "ellipse" else dict(cx=cx, cy=cy, r=rx), way)
        size = max(rx, ry) + 3
        rec.state(case)
        rec.outcome((tag, j > 0))
        t0, sw = i * TAU / 24, j * TAU / 24
        x = n.arc_t(t0, t0 + sw)
        rec.step()
        rec.compared(6)
        if abs(abs(float(x.sweep)) - abs(sw)) > 1e-9 or (float(x.sweep) > 0) != (sw > 0):
            return rec.fail("arc_t sweep", "%r: arc_t(%r, %r) sweeps %r" % (case, t0, t0 + sw, x.sweep))
        for f in (0, 0.2, 0.5, 0.9, 1):
            w = (cx + rx * math.cos(t0 + f * sw), cy + ry * math.sin(t0 + f * sw))
            if not close_pt(x.point(f), w, 1e-8 * size):
                return rec.fail("arc_t round", "%r: arc_t(%r, %r) at %s is %s, expected %s" % (case, t0, t0 + sw, f, x.point(f), w))

    def rounds():
        for c in gen():
            for i in range(0, 24, ctx.pick(3, 1)):
                for j in (24, 25, 30, 35, 36, 47, 48, 49, 60, -24, -25, -36, -47, -48, -60):
                    yield (c, i, j)
    ctx.explore("rounds", rounds, round_, bound="these x %d starts x 15 sweeps of a turn to two and a half, either way" % ctx.pick(8, 24))

    def arc(case, rec):
        (tag, (cx, cy), rx, ry, way), i, j = case
        a = dict(cx=cx, cy=cy, rx=rx, ry=ry) if tag == "ellipse" else dict(cx=cx, cy=cy, r=rx)
        n = make(tag, a, way)
        size = max(rx, ry) + 3
        rec.state(case)
        rec.outcome((tag, j > 0))
        t0, sw = i * TAU / 24, j * TAU / 24
        rec.step()
        rec.compared(5)
        x = n.arc_t(t0, t0 + sw)
        for f in (0, 0.2, 0.5, 0.9, 1):
            w = (cx + rx * math.cos(t0 + f * sw), cy + ry * math.sin(t0 + f * sw))
            if not close_pt(x.point(f), w, 1e-8 * size):
                return rec.fail("arc_t", "%r: arc_t(%r, %r) at %s is %s, expected %s" % (case, t0, t0 + sw, f, x.point(f), w))
        # between two directions, the way asked for
        if j % 24 == 0:
            return
        a0, a1 = t0, t0 + sw

        def at(a):
            r = 1 / math.hypot(math.cos(a) / rx, math.sin(a) / ry)
            return (cx + r * math.cos(a), cy + r * math.sin(a))

        def par(a):
            return math.atan2(math.sin(a) / ry, math.cos(a) / rx)
        for ccw in (None, True, False):
            way_back = (a0 > a1) if ccw is None else ccw
            x = n.arc_angle(a0, a1) if ccw is None else n.arc_angle(a0, a1, ccw=ccw)
            rec.step()
            rec.compared(5)
            p0, p1 = par(a0), par(a1)
            d = (p1 - p0) % TAU
            if way_back:
                d -= TAU
            if min(abs(d), TAU - abs(d)) < 1e-6:
                continue
            for f in (0, 0.25, 0.5, 1):
                w = (cx + rx * math.cos(p0 + f * d), cy + ry * math.sin(p0 + f * d))
                if not close_pt(x.point(f), w, 1e-7 * size):
                    return rec.fail("arc_angle", "%r: arc_angle(%r, %r, ccw=%s) at %s is %s, expected %s" % (case, a0, a1, ccw, f, x.point(f), w))
            if not close_pt(x.point(0), at(a0), 1e-7 * size):
                return rec.fail("arc_angle start", "%r: arc_angle(%r, %r) starts at %s, expected %s" % (case, a0, a1, x.point(0), at(a0)))
    ctx.explore("arcs", arcs, arc, timeout=20, bound="these x %d starts x %d sweeps of up to a turn, either way" % (ctx.pick(12, 24), ctx.pick(10, 48)))
    ctx.assumptions = ["radii greater than zero"]
    # asked, changed, and asked again
    def attr(k, v):
        def f(n):
            n.attributes[k] = v
        return ("%s = %s" % (k, v), f)
    asked.explore(ctx, "asked", [(w + " " + t, lambda t=t, w=w: make(t, {"cx": "1", "cy": "2", "r": "4", "rx": "5", "ry": "3"}, w)) for t in ("ellipse", "circle") for w in ("class", "loaded")],
                  [attr("cx", "4"), attr("cy", "-1"), attr("r", "6"), attr("rx", "2"), attr("ry", "9")],
                  [("center", lambda n: tuple(n.center)), ("point_at_t", lambda n: n.point_at_t(2)), ("point", lambda n: n.point(0.3)), ("t_at_point", lambda n: n.t_at_point(B.Point(0, 9))), ("angle_at_point", lambda n: float(n.angle_at_point(B.Point(0, 9)))),
                   ("point_at_angle", lambda n: n.point_at_angle(2)), ("unit", lambda n: list(n.unit_matrix())), ("arc_t", lambda n: n.arc_t(1, 2).point(0.5)), ("arc_angle", lambda n: n.arc_angle(1, 2).point(0.5))], ctx.pick(2, 3))


VCLS = {"svg": "SVG", "image": "Image", "pattern": "Pattern"}
VIEWS = ["viewBox", "x", "y", "width", "height", "preserveAspectRatio"]


def vmake(tag, a, way):
    """An element with these attributes (values None are absent)."""
    N = nd()
    real = {k: v for k, v in a.items() if v is not None}
    text = {k: str(v) for k, v in real.items()}
    up = {"viewBox": "0 0 3 7", "x": "9", "y": "9", "width": "5", "height": "5", "preserveAspectRatio": "none"}
    if way == "class":
        return getattr(N, VCLS[tag])(**real)
    if way == "text":
        return getattr(N, VCLS[tag])(**text)
    if way == "root":
        return load(to_xml(T(tag, text)))[0]
    if way == "below":
        return load(to_xml(T("svg", dict(up), [T("g", dict(up), [T("pattern", dict(up), [T(tag, text, [T("svg", dict(up))])])])])))[0][0][0][0]
    if way == "builder":
        doc = load(to_xml(T("svg", dict(up), [])))
        getattr(doc[0], tag)(**text)
        return doc[0][-1]
    if way == "added":
        doc = N.Document()
        doc.add(getattr(N, VCLS[tag])(**text))
        return doc[0]
    n = load(to_xml(T("svg", {}, [T(tag, dict(up))])))[0][0]
    n.viewbox_transform
    n.attributes.clear()
    n.attributes.update(text)
    return n


VWAYS = ("class", "text", "root", "below", "builder", "added", "edited")


def viewed(a):
    """The matrix of the contents: of nothing where the viewBox or the size is absent, incomplete or unknown."""
    from .basics import I6, fitted

    def g(k, default):
        if a.get(k) is None:
            return default
        try:
            return num(a[k])
        except ValueError:
            return None
    try:
        v = tuple(float(x) for x in (a.get("viewBox") or "").replace(",", " ").split())
    except ValueError:
        v = ()
    e = (g("x", 0.0), g("y", 0.0), g("width", None), g("height", None))
    if len(v) < 4 or None in e:
        return None
    return fitted(e, v[:4], a.get("preserveAspectRatio"))


def vcheck(n, a, what, rec):
    from .basics import I6
    B = bs()
    w = viewed(a)
    rec.step()
    rec.compared(2)
    before = dict(n.attributes)
    for turn in range(2):
        t = n.viewbox_transform
        if not isinstance(t, str):
            return rec.fail("kind", "%s: viewbox_transform is %r" % (what, t))
        g = B.Matrix(t)
        g = (g.a, g.b, g.c, g.d, g.e, g.f)
        x = I6 if w is None else w
        size = max(1.0, max(map(abs, x)))
        if any(abs(p - q) > TOL * size for p, q in zip(g, x)):
            return rec.fail("fit", "%s: viewbox_transform is %r, expected %s" % (what, t, x))
        if w is None and t != "":
            return rec.fail("missing", "%s: viewbox_transform is %r" % (what, t))
    if dict(n.attributes) != before:
        rec.fail("changed", "%s: asking changed the attributes to %r" % (what, dict(n.attributes)))


def P50(ctx):
    """The viewBox of an element."""
    aspects = [None, "none", "xMidYMid", "xMinYMax meet", "xMaxYMin slice", "xMidYMax slice", "xMaxYMid", "none slice"]
    boxes = [None, "0 0 10 20", "5,5,100,25", "-3 4 .5 2e1", " 1 , 2\n3 4 ", "0 0 10", ""]

    def run(case, rec):
        tag, a, way = case
        rec.state((tag, sorted((k, str(v)) for k, v in a.items()), way))
        n = vmake(tag, a, way)
        rec.outcome((tag, way, viewed(a) is None))
        vcheck(n, a, "%s %s made by %s" % (tag, {k: v for k, v in a.items() if v is not None}, way), rec)

    def grid():
        for tag in VCLS:
            for x, y in itertools.product((None, 0, 7), (None, -2.5, 3)):
                for w, h in itertools.product((None, 100, 0.25), (None, 50, 100)):
                    for v in boxes:
                        for p in aspects if ctx.thorough or (x, y) in ((None, None), (7, -2.5)) else aspects[:5:2]:
                            yield (tag, dict(zip(VIEWS, (v, x, y, w, h, p))), VWAYS[(hash_(x) + hash_(w) + hash_(h) + boxes.index(v)) % len(VWAYS)] if not ctx.thorough else None)

    def hash_(v):
        return 0 if v is None else int(v * 4) % 5

    def every():
        for tag, a, way in grid():
            for w in VWAYS if way is None else (way,):
                yield (tag, a, w)
    ctx.explore("grid", every, run, bound="svg, image and pattern x 9 positions, 9 sizes and 7 viewBoxes, each also absent x up to 8 preserveAspectRatio%s" % (" x 7 ways to make it" if ctx.thorough else ", made in 7 ways in turn"))

    def ways():
        for tag in VCLS:
            for way in VWAYS:
                for pick in itertools.product((0, 1), repeat=6):
                    yield (tag, {k: v if on else None for on, (k, v) in zip(pick, zip(VIEWS, ("2 -3 10 20", 7, -4, 200, 50, "xMinYMax slice")))}, way)
    ctx.explore("absent", ways, run, bound="every subset of the six attributes x 3 elements x 7 ways to make them")

    def zeros():
        for tag in VCLS:
            for x, y in itertools.product((None, 0, "0", "-2", 5), repeat=2):
                for w, h in itertools.product((0, "0", 0.0, "0px", 50, "20"), repeat=2):
                    if num(w) and num(h) and not ctx.thorough:
                        continue
                    for p in aspects[:5]:
                        yield (tag, dict(zip(VIEWS, ("1 -2 10 20", x, y, w, h, p))), VWAYS[(num(w) > 0) + 2 * (num(h) > 0) + (x is None) + (y is None)])
    ctx.explore("zeros", zeros, run, bound="widths, heights and places of zero as numbers and text x 5 preserveAspectRatio x 3 elements")

    def units():
        for tag in VCLS:
            for k in VIEWS[1:5]:
                for u in list(PX) + ["%", "em", "vw"]:
                    for amount in ("10", "-2.5", "1e2", " 7 ", "+3") if k in "xy" else ("10", "2.5", "1e2", "+3"):
                        for way in ("text", "root", "below", "edited"):
                            a = {"viewBox": "1 2 10 20", "x": "3", "width": "100", "height": "70"}
                            a[k] = amount.strip() + u
                            yield (tag, a, way)
    ctx.explore("units", units, run, bound="x, y, width and height in 7 units and 3 unknown ones, 4 to 5 spellings x 4 ways")

    # one element edited step by step
    values = [("viewBox", "0 0 10 20"), ("viewBox", "5 5 40 10"), ("viewBox", None), ("x", "3"), ("y", "1in"), ("x", None), ("width", "30"), ("width", None), ("height", "9"), ("preserveAspectRatio", "none"), ("preserveAspectRatio", "xMaxYMax slice"), ("preserveAspectRatio", None)]

    def build(root):
        tag, way = root
        a = {"viewBox": "0 0 4 4", "width": "20", "height": "40"}
        b = {"viewBox": "0 0 4 4", "width": "20", "height": "40"}
        doc = load(to_xml(T("svg", {}, [T(tag, a), T("g", {}, [T(tag, b)])])))
        return {"n": [doc[0][0], doc[0][1][0]], "a": [dict(a), dict(b)], "doc": doc}

    def apply(st, op, rec):
        i, k, v = op
        if v is None:
            st["n"][i].attributes.pop(k, None)
            st["a"][i].pop(k, None)
        else:
            st["n"][i].attributes[k] = v
            st["a"][i][k] = v

    def check(st, hist, rec):
        for i in (0, 1):
            vcheck(st["n"][i], st["a"][i], "%r element %d" % (hist, i), rec)
    ctx.bfs("histories", [(t, "loaded") for t in VCLS], [(i,) + v for i in (0, 1) for v in values], build, apply, lambda st: [sorted(a.items()) for a in st["a"]], check, depth=ctx.pick(2, 3),
            bound="every history of up to %d edits of two elements, asked before each" % ctx.pick(2, 3))
    # moved about in the tree: what is above does not matter
    def wrapped():
        for tag in VCLS:
            for up in itertools.product(("svg", "g", "pattern", "a"), repeat=ctx.pick(2, 3)):
                for k in VIEWS:
                    yield (tag, up, k)

    def wrap(case, rec):
        tag, up, k = case
        a = {"viewBox": "0 0 10 20", "x": "3", "y": "5", "width": "100", "height": "70", "preserveAspectRatio": "xMinYMin slice"}
        a.pop(k)
        other = {"viewBox": "0 0 3 7", "x": "9", "y": "9", "width": "5", "height": "5", "preserveAspectRatio": "none"}
        t = T(tag, dict(a))
        for u in up:
            t = T(u, dict(other), [T("svg", dict(other)), t])
        doc = load(to_xml(t))
        n = doc[0]
        for _ in up:
            n = n[1]
        rec.state(case)
        rec.outcome(k)
        vcheck(n, a, "%s without %s inside %s" % (tag, k, up), rec)
    ctx.explore("inside", wrapped, wrap, bound="each attribute missing on an element inside all combinations of %d of 4 elements that have it" % ctx.pick(2, 3))
    ctx.assumptions = ["viewBoxes of no size and negative sizes are left out", "an absent width or height, or one in relative units, is unknown: nothing is fitted", "units accepted to 3e-6"]
