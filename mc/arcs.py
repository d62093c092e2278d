"""P17: arcs from a control point, a bulge, a radius, a centre, a sweep or a box."""
import itertools
import math

from .core import close, close_pt

TAU = math.tau
TS = (0.0, 0.1, 0.25, 0.5, 0.7, 0.9, 1.0)


def seg():
    import svgio.path as m
    return m.Arc


def circumcentre(a, b, c):
    d = 2.0 * (a[0] * (b[1] - c[1]) + b[0] * (c[1] - a[1]) + c[0] * (a[1] - b[1]))
    A, B, C = [p[0] ** 2 + p[1] ** 2 for p in (a, b, c)]
    return ((A * (b[1] - c[1]) + B * (c[1] - a[1]) + C * (a[1] - b[1])) / d,
            (A * (c[0] - b[0]) + B * (a[0] - c[0]) + C * (b[0] - a[0])) / d)


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - b[1]) - (b[1] - a[1]) * (c[0] - b[0])


class Ref:
    """An elliptical arc: centre, radii, rotation, start parameter, sweep."""

    def __init__(self, c, rx, ry, rot, t0, sweep):
        self.__dict__.update(c=c, rx=rx, ry=ry, rot=rot, t0=t0, sweep=sweep)

    def at(self, t):
        x, y = self.rx * math.cos(t), self.ry * math.sin(t)
        co, si = math.cos(self.rot), math.sin(self.rot)
        return self.c[0] + x * co - y * si, self.c[1] + x * si + y * co

    def point(self, u):
        return self.at(self.t0 + self.sweep * u)

    def t_of(self, p):
        dx, dy = p[0] - self.c[0], p[1] - self.c[1]
        co, si = math.cos(self.rot), math.sin(self.rot)
        return math.atan2((-dx * si + dy * co) / self.ry, (dx * co + dy * si) / self.rx)


def circle_between(c, s, e, cw):
    """The circle arc around c from s to e, positive sweep if cw."""
    r = math.hypot(s[0] - c[0], s[1] - c[1])
    t0 = math.atan2(s[1] - c[1], s[0] - c[0])
    t1 = math.atan2(e[1] - c[1], e[0] - c[0])
    sw = (t1 - t0) % TAU
    if not cw:
        sw -= TAU
    return Ref(c, r, r, 0.0, t0, sw)


def compare(rec, what, arc, ref, s=None, e=None, tol=1e-7):
    scale = max(1.0, ref.rx, ref.ry, abs(ref.c[0]), abs(ref.c[1]))
    rec.step()
    rec.compared(len(TS) + 3)
    s = ref.point(0) if s is None else s
    e = ref.point(1) if e is None else e
    if not close_pt(arc.start, s, 1e-9 * scale) or not close_pt(arc.end, e, 1e-9 * scale):
        rec.fail("ends:" + what[0], "%s runs from %s to %s, expected %s to %s" % (what, arc.start, arc.end, s, e))
        return
    if not close_pt(arc.center, ref.c, tol * scale):
        rec.fail("center:" + what[0], "%s has center %s, expected %s" % (what, arc.center, ref.c))
        return
    if not close(float(arc.sweep), ref.sweep, tol * scale):
        rec.fail("sweep:" + what[0], "%s has sweep %s, expected %s" % (what, arc.sweep, ref.sweep))
        return
    for u in TS:
        p = arc.point(u)
        if not close_pt(p, ref.point(u), tol * scale):
            rec.fail("point:" + what[0], "%s at %s is %s, expected %s" % (what, u, p, ref.point(u)))
            return


def P17(ctx):
    A = seg()
    import svgio.basic as B
    rng = ctx.pick((-4, -1, 0, 2, 5), (-6, -4, -1, 0, 1, 2, 5))
    grid = list(itertools.product(rng, repeat=2))

    def forms(p):
        return {0: p, 1: complex(*p), 2: B.Point(*p), 3: list(p)}[(int(p[0] * 3 + p[1])) % 4]

    # start, end and a point on the arc
    def cgen():
        for s in ((0, 0), (3, -2)):
            for e in grid:
                for c in grid:
                    if cross(s, c, e) != 0:
                        yield (s, e, c)

    def cfn(case, rec):
        s, e, c = case
        rec.state(case)
        cc = circumcentre(s, c, e)
        cw = cross(s, c, e) > 0
        ref = circle_between(cc, s, e, cw)
        rec.outcome((cw, abs(ref.sweep) > math.pi))
        for how, arc in (("control", A(start=forms(s), end=forms(e), control=forms(c))), ("control-positional", A(s, e, control=c))):
            compare(rec, (how, case), arc, ref, s, e)
        # the asked point is on it
        u = ((ref.t_of(c) - ref.t0) % TAU) / TAU if cw else ((ref.t0 - ref.t_of(c)) % TAU) / TAU
        p = arc.point(u * TAU / abs(ref.sweep))
        if not 0 < u * TAU < abs(ref.sweep) or not close_pt(p, c, 1e-7 * max(1, ref.rx)):
            rec.fail("through", "arc %s misses its control point: %s at %s" % (case, p, u))
    ctx.explore("control", cgen, cfn, bound="2 starts x %d ends x %d points not in line" % (len(grid), len(grid)))

    def ngen():
        for k in range(1, 8):
            for e in (2.3 * 10.0 ** -k, -2.3 * 10.0 ** -k):
                for s, en in (((0, 0), (8, 4)), ((3, -2), (-1, 0)), ((1, 1), (1, 7)), ((5, 2), (-3, 2))):
                    for u in (0.5, 0.3, 0.9):
                        for how in ("control", "bulge", "sagitta"):
                            yield (s, en, u, e, how)

    def nfn(case, rec):
        s, en, u, e, how = case
        q = math.hypot(en[0] - s[0], en[1] - s[1])
        n = ((en[1] - s[1]) / q, (s[0] - en[0]) / q)
        if how != "control":
            if u != 0.5:
                return rec.skip("only the middle")
            h = e * q / 2 if how == "bulge" else e
        else:
            h = e
        c = (s[0] + u * (en[0] - s[0]) + h * n[0], s[1] + u * (en[1] - s[1]) + h * n[1])
        arc = A(start=s, end=en, **{how: c if how == "control" else e})
        rec.state(case)
        rec.step()
        rec.outcome((how, e > 0))
        rec.compared(3)
        # radius from the circle through three points, turning direction from the side the point is on
        d2 = abs(cross(s, c, en))
        r = q * math.hypot(c[0] - s[0], c[1] - s[1]) * math.hypot(en[0] - c[0], en[1] - c[1]) / (2 * d2)
        sweep = math.copysign(2 * math.asin(min(1.0, q / 2 / r)), h)
        if not close(float(arc.rx), r, 1e-6 * r) or not close(float(arc.ry), r, 1e-6 * r):
            rec.fail("flat radius:" + how, "%r has radii %r %r, expected %r" % (case, arc.rx, arc.ry, r))
        elif abs(float(arc.sweep) - sweep) > 1e-6 * abs(sweep):
            rec.fail("flat sweep:" + how, "%r has sweep %r, expected %r" % (case, float(arc.sweep), sweep))
        else:
            v = 0.5 if u == 0.5 else None
            if v is not None and not close_pt(arc.point(v), c, 1e-9 + 1e-14 * r):
                rec.fail("flat middle:" + how, "%r passes %s, expected %s" % (case, arc.point(v), c))
    ctx.explore("flat", ngen, nfn, bound="control points, bulges and sagittas down to 1e-7 from the chord, both sides, 4 chords")

    chords = [(dx, dy) for dx in rng for dy in rng if (dx, dy) != (0, 0)]

    def bgen():
        for s in ((0, 0), (3, -2)):
            for d in chords:
                for b in ctx.pick([1, -1, 0.5, -0.5, 0.1, 2], [1, -1, .5, -.5, .1, -.1, 2, -2, .25, 5]):
                    for how in ("bulge", "sagitta"):
                        yield (s, d, b, how)

    def bfn(case, rec):
        s, d, b, how = case
        q = math.hypot(*d)
        e = (s[0] + d[0], s[1] + d[1])
        h = b * q / 2.0 if how == "bulge" else b
        n = (d[1] / q, -d[0] / q)  # a quarter turn before the chord
        m = (s[0] + d[0] / 2.0, s[1] + d[1] / 2.0)
        c = (m[0] + h * n[0], m[1] + h * n[1])
        rec.state(case)
        rec.outcome((how, b))
        r = (q * q / 4.0 + h * h) / (2.0 * h)
        cc = (c[0] - r * n[0], c[1] - r * n[1])
        ref = circle_between(cc, s, e, h > 0)
        if how == "bulge" and not close(ref.sweep, 4 * math.atan(b), 1e-9):
            rec.fail("reference", "bulge reference is inconsistent")
        compare(rec, (how, case), A(start=s, end=e, **{how: b}), ref, s, e)
        compare(rec, (how + "-text", case), A(start=s, end=e, **{how: str(b)}), ref, s, e)
    ctx.explore("bulge", bgen, bfn, bound="2 starts x %d chords x bulges and sagittas of both signs" % len(chords))

    def rgen():
        for s in ((0, 0), (3, -2)):
            for d in chords:
                for k in (0.5, 1.0, 1.25, 3, 20):
                    for ccw in (None, False, True):
                        yield (s, d, k, ccw)

    def rfn(case, rec):
        s, d, k, ccw = case
        q = math.hypot(*d)
        e = (s[0] + d[0], s[1] + d[1])
        r = k * q / 2.0
        R = max(r, q / 2.0)
        h = math.sqrt(max(0.0, R * R - q * q / 4.0))
        cw = not ccw
        sg = 1 if cw else -1
        cc = (s[0] + d[0] / 2.0 - sg * h * d[1] / q, s[1] + d[1] / 2.0 + sg * h * d[0] / q)
        t0 = math.atan2(s[1] - cc[1], s[0] - cc[0])
        ref = Ref(cc, R, R, 0.0, t0, sg * 2 * math.asin(min(1.0, q / 2.0 / R)))
        rec.state(case)
        rec.outcome((k, ccw))
        kw = {} if ccw is None else {"ccw": ccw}
        compare(rec, ("radius", case), A(start=s, end=e, r=r, **kw), ref, s, e, tol=1e-6 if k > 1 else 2e-7)
    ctx.explore("radius", rgen, rfn, bound="2 starts x %d chords x 5 radii x direction absent, cw, ccw" % len(chords))

    angles = [k * TAU / 12 for k in range(12)] + [0.1, 2.5, -1.3]

    def egen():
        for c in ((0, 0), (2, -3)):
            for rx, ry, rot in ((5, 5, 0), (6, 2, 0), (2, 6, 0), (6, 2, 0.4), (2, 5, -1.1), (4, 3, TAU / 4), (4, 4, 1.0), (6, 2, 2.0), (2, 5, 4.0), (6, 2, -2.5), (3, 4, 7.0)):
                for a in angles:
                    for b in angles:
                        for ccw in (None, False, True):
                            if a != b:
                                yield (c, rx, ry, rot, a, b, ccw)
                    # nearly nothing, nearly all the way round
                    for d in (1e-2, -1e-2, 1e-4, -1e-4, 1e-6, -1e-6):
                        for ccw in (None, False, True):
                            yield (c, rx, ry, rot, a, a + d, ccw)

    def efn(case, rec):
        c, rx, ry, rot, a, b, ccw = case
        sw = (b - a) % TAU
        if ccw:
            sw -= TAU
        ref = Ref(c, rx, ry, rot, a, sw)
        s, e = ref.point(0), ref.at(b)
        kw = {} if ccw is None else {"ccw": ccw}
        rec.state(case)
        rec.outcome((rx == ry, ccw))
        forms_ = []
        if rx == ry:
            forms_ = [("center", lambda: A(start=s, end=e, center=c, **kw)), ("center-positional", lambda: A(s, e, c, **kw)),
                      ("center-r", lambda: A(start=s, end=e, center=c, r=rx, **kw))]
            ref = Ref(c, rx, ry, 0.0, a + rot, sw)
        if rot == 0:
            forms_ += [("box", lambda: A(start=s, end=e, left=c[0] - rx, right=c[0] + rx, top=c[1] - ry, bottom=c[1] + ry, **kw)),
                       ("center-rx-ry", lambda: A(start=s, end=e, center=c, rx=rx, ry=ry, **kw))]
        elif rx != ry:
            forms_ += [("center-rx-ry-rotation", lambda: A(start=s, end=e, center=c, rx=rx, ry=ry, rotation=rot, **kw)),
                       ("center-positional-rotation", lambda: A(s, e, c, rx=rx, ry=ry, rotation=rot, **kw))]
            co, si = math.cos(rot), math.sin(rot)
            forms_ += [("axes", lambda: A(start=s, end=e, center=c, prx=(c[0] + rx * co, c[1] + rx * si), pry=(c[0] - ry * si, c[1] + ry * co), **kw))]
        for how, f in forms_:
            compare(rec, (how, case), f(), ref, s, e, tol=1e-7)
    ctx.explore("center", egen, efn, bound="2 centres x 11 ellipses, turned up to more than once, x all pairs of %d positions and each with 6 places next to it x direction absent, cw, ccw" % len(angles))

    def sgen():
        for c in ((0, 0), (2, -3)):
            for rx, ry, rot in ((5, 5, 0), (6, 2, 0), (2, 6, 0), (6, 2, 0.4), (2, 5, -1.1), (4, 3, TAU / 4), (6, 2, 2.0), (2, 5, 4.0), (6, 2, -2.5), (3, 4, 7.0)):
                for a in angles:
                    for sw in (1e-6, -1e-6, 1e-3, -1e-3, 0.1, -0.1, TAU - 1e-5, 1e-5 - TAU, 1, -1, TAU / 4, -TAU / 4, TAU / 2, -TAU / 2, 5, -5, TAU, -TAU):
                        yield (c, rx, ry, rot, a, sw)

    def sfn(case, rec):
        c, rx, ry, rot, a, sw = case
        ref = Ref(c, rx, ry, rot, a, sw)
        s, e = ref.point(0), ref.point(1)
        rec.state(case)
        rec.outcome(sw)
        co, si = math.cos(rot), math.sin(rot)
        ax = dict(center=c, prx=(c[0] + rx * co, c[1] + rx * si), pry=(c[0] - ry * si, c[1] + ry * co))
        out = [("start-sweep", lambda: A(start=s, sweep=sw, **ax)), ("end-sweep", lambda: A(end=e, sweep=sw, **ax)),
               ("all", lambda: A(s, e, ax["center"], ax["prx"], ax["pry"], sw)), ("all-named", lambda: A(start=s, end=e, sweep=sw, **ax))]
        if rot == 0:
            out += [("start-sweep-box", lambda: A(start=s, sweep=sw, left=c[0] - rx, right=c[0] + rx, top=c[1] - ry, bottom=c[1] + ry)),
                    ("end-sweep-rx-ry", lambda: A(end=e, sweep=sw, center=c, rx=rx, ry=ry))]
        else:
            out += [("start-sweep-rotation", lambda: A(start=s, sweep=sw, center=c, rx=rx, ry=ry, rotation=rot))]
        if rx == ry:
            out += [("start-sweep-circle", lambda: A(start=s, sweep=sw, center=c)), ("end-sweep-circle", lambda: A(end=e, sweep=sw, center=c))]
        for how, f in out:
            compare(rec, (how, case), f(), ref)
    ctx.explore("sweep", sgen, sfn, bound="2 centres x 10 ellipses, turned up to more than once, x %d positions x 18 sweeps, from either end" % len(angles))

    def qgen():
        for s in ((0, 0), (3, -2)):
            for dx in rng:
                for dy in rng:
                    if dx and dy:
                        for k in (None, {"scooped": False}, {"scooped": True}, {"ccw": True}, {"ccw": False}):
                            yield (s, dx, dy, k)

    def qfn(case, rec):
        s, dx, dy, k = case
        e = (s[0] + dx, s[1] + dy)
        back = bool(k) and any(k.values())
        want = -1 if back else 1
        for c in ((s[0], e[1]), (e[0], s[1])):
            if cross(c, s, e) * want > 0:
                break
        rx, ry = abs(dx), abs(dy)
        ref = Ref(c, rx, ry, 0.0, 0.0, want * TAU / 4)
        ref.t0 = ref.t_of(s)
        rec.state(repr(case))
        rec.outcome((dx > 0, dy > 0, back))
        compare(rec, ("quarter", case), A(start=s, end=e, rx=rx, ry=ry, **(k or {})), ref, s, e)
    ctx.explore("quarter", qgen, qfn, bound="quarter ellipses of every direction, plain, scooped, cw and ccw")
    ctx.assumptions = ["control points in line with the ends and zero bulges have no circle and are left out",
                       "start and end given with a centre lie on the ellipse"]
