"""Geometry of segments and paths against independent closed forms.

P09 arc parametrisation, P10 points, P11 bounding boxes, P12 lengths, P13 affine maps, P14 arc approximation,
P17 arcs from other data.
"""
import itertools
import math

from . import asked
from . import obs
from . import large
from . import ref_path as R
from .core import close, close_pt


def sp():
    import svgio.path as m
    return m


def bs():
    import svgio.basic as m
    return m


# ---------------------------------------------------------------------------------------
def arc_grid(ctx):
    """(start, rx, ry, rot, large, sweep, end) over sizes, ratios, rotations, flags and directions; includes radii that are
    negative, too small (scaled up) and in every ratio to the chord."""
    rads = ctx.pick([(1, 1), (2, 1), (1, 2), (5, 3), (-5, 3), (5, -3), (0.1, 0.2), (100, 1), (40, 60), (2.5, 2.5)],
                    [(1, 1), (2, 1), (1, 2), (5, 3), (-5, 3), (5, -3), (-2, -2), (0.1, 0.2), (0.001, 5), (100, 1), (1, 100), (40, 60), (2.5, 2.5),
                     (3.3, 7.7), (1e4, 1e4), (1e-3, 1e-3)])
    rots = ctx.pick([0, 30, 45, 90, 120, 180, -20, 270, 400], [0, 1, 15, 30, 45, 60, 89, 90, 91, 120, 135, 180, 200, 270, 300, -20, -90, 359, 360, 400, 725])
    starts = [(0, 0), (1, 2)]
    vecs = ctx.pick([(4, 0), (0, 3), (-2.5, 1.25), (3, 3), (-1, -4), (0.01, 0.02)],
                    [(4, 0), (-4, 0), (0, 3), (0, -3), (-2.5, 1.25), (3, 3), (-3, 3), (-1, -4), (2, -7), (0.01, 0.02), (1e-4, 0), (300, -500), (1, 0.001)])
    for (rx, ry) in rads:
        for rot in rots:
            for s in starts:
                for v in vecs:
                    for f in range(4):
                        yield (s, rx, ry, rot, f & 1, f >> 1, (s[0] + v[0], s[1] + v[1]))
    # ellipses turned a very little, or nearly a quarter
    for rot in slight_turns(ctx):
        for rx, ry in ((5, 3), (2, 40)):
            for s, v in (((0, 0), (4, 1)), ((1, 2), (-1, -4))):
                for f in range(4):
                    yield (s, rx, ry, rot, f & 1, f >> 1, (s[0] + v[0], s[1] + v[1]))


def slight_turns(ctx):
    for base in (0, 90, 180, 270):
        for e in ctx.pick((1, 0.1, 1e-3, 1e-6, 1e-9, 1e-12), (5, 1, 0.3, 0.1, 0.01, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12, 1e-14)):
            yield base + e
            yield base - e


def delicate(a):
    """Arcs whose chord is (nearly) a diameter: the centre is the square root of a rounding error."""
    s, rx, ry, rot, la, sw, e = a
    phi = math.radians(rot)
    dx, dy = (s[0] - e[0]) / 2, (s[1] - e[1]) / 2
    x1 = math.cos(phi) * dx + math.sin(phi) * dy
    y1 = -math.sin(phi) * dx + math.cos(phi) * dy
    lam = (x1 / rx) ** 2 + (y1 / ry) ** 2
    return abs(lam - 1) < 1e-6


def flat_arcs(decades=10):
    """Arcs whose radii are up to 1e9 times their chord."""
    for k in range(0, decades):
        for rx, ry in ((1.3, 1.3), (1.0, 2.0), (3.0, 0.7)):
            for rot in (0, 33, 90):
                for s, v in (((0, 0), (2, 1)), ((1, 2), (-1, 0.3)), ((-3, 1), (0, 1.0))):
                    for f in range(4):
                        a = (s, 1.5 * rx * 10.0 ** k, 1.5 * ry * 10.0 ** k, rot, f & 1, f >> 1, (s[0] + v[0], s[1] + v[1]))
                        if not delicate(a) and not R.arc_center(*a)[2] > abs(a[1]) * (1 + 1e-12):
                            yield a


def P09(ctx):
    S, B = sp(), bs()
    TS = [0, 0.125, 0.25, 0.4, 0.5, 0.75, 0.9, 1]

    def check_arc(arc, a, rec, how):
        s, rx, ry, rot, la, sw, e = a
        par = R.arc_center(*a)
        size = max(abs(s[0]), abs(s[1]), abs(e[0]), abs(e[1]), 1.0)
        rec.compared(len(TS) + 4)
        if tuple(map(float, arc.start)) != tuple(map(float, s)) or tuple(map(float, arc.end)) != tuple(map(float, e)):
            rec.fail("endpoints:" + how, "%s %r has endpoints %s %s" % (how, a, arc.start, arc.end))
            return
        if par is None or par == ("line",):
            for t in TS:
                w = R.seg_point(("A",) + a, t)
                if not close_pt(arc.point(t), w, 1e-9):
                    rec.fail("degenerate:" + how, "%s %r: point(%s) = %s, expected %s" % (how, a, t, tuple(arc.point(t)), w))
                    return
            return
        cx, cy, Rx, Ry, phi, t1, dt = par
        grown = Rx > abs(rx) * (1 + 1e-12)  # radii scaled up: the exact centre is the middle of the chord
        tol = (1e-3 if delicate(a) else 1e-5 if grown else 1e-8) * max(size, Rx, Ry)
        if abs(arc.rx - Rx) > tol or abs(arc.ry - Ry) > tol:
            rec.fail("radii:" + how, "%s %r has radii %r %r, expected %r %r" % (how, a, arc.rx, arc.ry, Rx, Ry))
            return
        if abs(arc.center.x - cx) > tol or abs(arc.center.y - cy) > tol:
            rec.fail("center:" + how, "%s %r has center %s, expected %s" % (how, a, arc.center, (cx, cy)))
            return
        if abs(float(arc.sweep) - dt) > (1e-3 if delicate(a) else 1e-5 if grown else 1e-6):
            rec.fail("sweep:" + how, "%s %r sweeps %r, expected %r" % (how, a, float(arc.sweep), dt))
            return
        ptol = max(tol, 1e-6 * max(Rx, Ry))
        for t in TS:
            w, g = R.seg_point(("A",) + a, t), arc.point(t)
            if abs(w[0] - g[0]) > ptol or abs(w[1] - g[1]) > ptol:
                rec.fail("point:" + how, "%s %r: point(%s) = %s, expected %s" % (how, a, t, tuple(g), w))
                return

    def case_fn(a, rec):
        s, rx, ry, rot, la, sw, e = a
        rec.state(a)
        rec.step()
        rec.outcome((la, sw))
        check_arc(S.Arc(s, rx, ry, rot, la, sw, e), a, rec, "Arc(start,rx,ry,rot,large,sweep,end)")
        check_arc(S.Arc(complex(*s), complex(rx, ry), rot, la, sw, complex(*e)), a, rec, "Arc(complex)")
        check_arc(S.Arc(start=complex(*s), radius=complex(rx, ry), rotation=rot, arc_flag=la, sweep_flag=sw, end=complex(*e)), a, rec, "Arc(keywords)")
        p = S.Path("M%s,%sA%s %s %s %d %d %s,%s" % (R.num(s[0]), R.num(s[1]), R.num(rx), R.num(ry), R.num(rot), la, sw, repr(float(e[0])), repr(float(e[1]))))
        check_arc(p[1], a, rec, "path data")
        # end point conversion is undone by the endpoint form: same arc from its own data
        b = S.Arc(p[1].start, p[1].end, p[1].center, p[1].prx, p[1].pry, p[1].sweep)
        check_arc(b, a, rec, "Arc(start,end,center,prx,pry,sweep)")

    ctx.explore("arc-grid", lambda: arc_grid(ctx), case_fn, bound="grid of radii x rotations x chords x flags, five constructors")

    def degenerate():
        for rx, ry in ((0, 0), (0, 3), (3, 0), (-0.0, 4)):
            for rot in (0, 30, 90):
                for f in range(4):
                    for s, e in (((0, 0), (3, 4)), ((1, 2), (1, -5)), ((1, 2), (1, 2))):
                        yield (s, rx, ry, rot, f & 1, f >> 1, e)
        for rx, ry in ((1, 1), (5, 3)):
            for f in range(4):
                yield ((1, 2), rx, ry, 10, f & 1, f >> 1, (1, 2))
    def size_gen():
        for a in itertools.islice((a for a in arc_grid(ctx) if not delicate(a)), 0, None, ctx.pick(7, 3)):
            for k in SIZES:
                if coarse(("A",) + a, k):
                    yield (a, k)

    def size_case(case, rec):
        a, k = case
        s, rx, ry, rot, la, sw, e = scaled_seg(("A",) + a, k)[1:]
        p = S.Path("M%r,%rA%r %r %r %d %d %r,%r" % (float(s[0]), float(s[1]), float(rx), float(ry), rot, la, sw, float(e[0]), float(e[1])))
        par = R.arc_center(*a)
        rec.state(case)
        rec.outcome(k)
        for how, arc in (("Arc", S.Arc(s, rx, ry, rot, la, sw, e)), ("path data", p[1])):
            rec.step()
            rec.compared(len(TS) + 1)
            if abs(float(arc.sweep) - par[-1]) > 1e-5:
                return rec.fail("size sweep:" + how, "%s %r times %r sweeps %r, expected %r" % (how, a, k, float(arc.sweep), par[-1]))
            tol = 1e-5 * max(1.0, par[2], par[3])
            for t in TS:
                w, g = R.seg_point(("A",) + a, t), arc.point(t)
                if abs(w[0] - g[0] / k) > tol or abs(w[1] - g[1] / k) > tol:
                    return rec.fail("size point:" + how, "%s %r times %r: point(%s) = %s, expected %s times that" % (how, a, k, t, tuple(g), w))
    ctx.explore("sizes", size_gen, size_case, bound="every %s arc of the grid at sizes of 2^-30 to 2^30" % ctx.pick("7th", "3rd"))
    ctx.explore("arc-degenerate", degenerate, case_fn, bound="zero radii and coincident end points")

    def fits():
        """Ellipses that fit their chord up to a little: radii too small or too large by a factor of 1 +- 10^-k."""
        for rx, ry in ((1, 1), (2, 1), (1, 3), (-1, 2)):
            for rot in (0, 30, 90, 135):
                for s, v in (((0, 0), (4, 0)), ((1, 2), (0, 3)), ((1, 2), (-2.5, 1.25))):
                    lam = math.sqrt(sum(x * x for x in (lambda c, n: ((c * v[0] + n * v[1]) / 2 / rx, (-n * v[0] + c * v[1]) / 2 / ry))(math.cos(math.radians(rot)), math.sin(math.radians(rot)))))
                    for k in range(1, 10):
                        for sign in (-1, 1):
                            for f in range(4):
                                g = lam * (1 + sign * 10.0 ** -k)
                                yield (k, sign, (s, rx * g, ry * g, rot, f & 1, f >> 1, (s[0] + v[0], s[1] + v[1])))

    def fit(case, rec):
        k, sign, a = case
        s, rx, ry, rot, la, sw, e = a
        rec.state(case)
        rec.outcome((k, sign))
        mid = ((s[0] + e[0]) / 2, (s[1] + e[1]) / 2)
        want = (abs(rx), abs(ry)) if sign > 0 else (abs(rx) / (1 - 10.0 ** -k), abs(ry) / (1 - 10.0 ** -k))
        far = math.sqrt(10.0 ** -k * (2 + 10.0 ** -k)) / (1 + 10.0 ** -k) * max(want) if sign > 0 else 0.0
        near = math.sqrt(10.0 ** -k * (2 + 10.0 ** -k)) / (1 + 10.0 ** -k) * min(want) if sign > 0 else 0.0
        text = "M%r,%rA%r %r %r %d %d %r,%r" % (s + (rx, ry, rot, la, sw) + e)
        for how, arc in (("Arc", S.Arc(*a)), ("path data", S.Path(text)[1]), ("complex", S.Arc(complex(*s), complex(rx, ry), rot, la, sw, complex(*e)))):
            rec.step()
            rec.compared(5)
            if abs(arc.rx - want[0]) > 1e-9 * want[0] or abs(arc.ry - want[1]) > 1e-9 * want[1]:
                return rec.fail("fit radii", "%s %r has radii %r, %r, expected %r" % (how, a, arc.rx, arc.ry, want))
            d = math.hypot(arc.center.x - mid[0], arc.center.y - mid[1])
            if d > far * (1 + 1e-4) + 1e-6 or d < near * (1 - 1e-4) - 1e-6:
                return rec.fail("fit center", "%s %r: center %s is %r from the middle of the chord, expected %r to %r" % (how, a, arc.center, d, near, far))
            for t, w in ((0, s), (1, e)):
                g = arc.point(t)
                c = arc.center
                phi = math.radians(rot)
                x, y = w[0] - c.x, w[1] - c.y
                r = math.hypot((math.cos(phi) * x + math.sin(phi) * y) / want[0], (-math.sin(phi) * x + math.cos(phi) * y) / want[1])
                if abs(r - 1) > 1e-7 or math.hypot(g[0] - w[0], g[1] - w[1]) > 1e-7 * (1 + max(want)):
                    return rec.fail("fit ends", "%s %r: point(%d) = %s, radius there %r of the ellipse's" % (how, a, t, tuple(g), r))
            sweep = float(arc.sweep)
            if (sweep > 0) != bool(sw) or abs(abs(sweep) - math.pi) > 4 * math.sqrt(10.0 ** -k) + 1e-6 or sign > 0 and k < 7 and (abs(sweep) > math.pi) != bool(la):
                return rec.fail("fit sweep", "%s %r sweeps %r" % (how, a, sweep))
    ctx.explore("arc-fit", fits, fit, bound="radii too small or too large for the chord by a factor of 1 +- 10^-1 to 10^-9, 4 ratios x 4 rotations x 3 chords x flags, three constructors")

    def flat_case(a, rec):
        par = R.arc_center(*a)
        rec.state(a)
        rec.step(3)
        rec.outcome((a[4], a[5]))
        tol = 1e-9 + 3e-14 * max(par[2], par[3])
        text = "M%r,%rA%r %r %r %d %d %r,%r" % (a[0] + a[1:6] + a[6])
        whole = R.seg_length(("A",) + a)
        for how, arc in (("Arc", S.Arc(*a)), ("path data", S.Path(text)[1]), ("complex", S.Arc(complex(*a[0]), complex(a[1], a[2]), *a[3:6], complex(*a[6])))):
            rec.compared(len(TS) + 2)
            if abs(float(arc.sweep) - par[6]) > 1e-12 + 1e-15 * max(par[2], par[3]) / min(par[2], par[3]):
                rec.fail("flat sweep", "%s %r sweeps %r, expected %r" % (how, a, float(arc.sweep), par[6]))
            for t in TS:
                w, g = R.seg_point(("A",) + a, t), arc.point(t)
                if abs(w[0] - g[0]) > tol or abs(w[1] - g[1]) > tol:
                    rec.fail("flat point", "%s %r: point(%s) = %s, expected %s" % (how, a, t, tuple(g), w))
                    return
            if abs(arc.length() - whole) > 1e-6 * whole + tol:
                rec.fail("flat length", "%s %r has length %r, expected %r" % (how, a, arc.length(), whole))
    ctx.explore("arc-flat", flat_arcs, flat_case, bound="radii of 2 to 1e9 times the chord, 3 ratios x 3 rotations x 3 chords x flags, three constructors")
    ctx.assumptions = ["arcs whose chord is a diameter to 1e-6 are compared to 1e-3 (their centre is the square root of a rounding error)"]


# ---------------------------------------------------------------------------------------
def ref_segments(cmds_text):
    """Reference segments of simple absolute path text made of the pieces below."""
    raise NotImplementedError


PCS = [
    ("L", ((5, 1),)), ("l", ((-2, 3),)), ("l", ((0, 0),)), ("C", ((1, 5, 4, 6, 8, 2),)), ("c", ((6, 0, -4, 2, 3, 3),)),
    ("Q", ((4, 7, 6, 3),)), ("q", ((1, 1, 0, 0),)), ("A", ((5, 3, 30, 0, 1, 7, 4),)), ("a", ((2, 4, -20, 1, 0, 3, 2),)),
    ("A", ((0, 3, 0, 0, 0, 9, 9),)), ("Z", ()), ("M", ((3, 3),)), ("m", ((2, 2),)), ("T", ((2, 8),)), ("S", ((1, 1, 6, 3),)),
]


def scaled_cmds(cmds, k):
    """The same drawing at another size; a power of two keeps every digit."""
    out = []
    for letter, groups in cmds:
        if letter in "Aa":
            groups = tuple((g[0] * k, g[1] * k, g[2], g[3], g[4], g[5] * k, g[6] * k) for g in groups)
        else:
            groups = tuple(tuple(v * k for v in g) for g in groups)
        out.append((letter, groups))
    return tuple(out)


SIZES = tuple(2.0 ** k for k in (-30, -20, -10, 10, 20, 30))


def scaled_seg(c, k):
    """The same segment at another size."""
    z = lambda p: (p[0] * k, p[1] * k)
    if c[0] == "A":
        return ("A", z(c[1]), c[2] * k, c[3] * k) + c[4:7] + (z(c[7]),)
    if c[0] == "W":
        cx, cy, rx, ry, phi, t0, dt = c[2]
        return ("W", z(c[1]), (cx * k, cy * k, rx * k, ry * k, phi, t0, dt), z(c[3]))
    return (c[0],) + tuple(z(p) for p in c[1:])


def segment_sample(ctx, step):
    """Every step-th segment of the grids."""
    yield from itertools.islice(curve_grid(ctx), 0, None, step)
    yield from (("A",) + a for a in itertools.islice((a for a in arc_grid(ctx) if not delicate(a)), 0, None, step))
    yield from itertools.islice(swept_arcs(ctx), 0, None, step)
    for e in ((4, 2), (-3, 0), (0, 5)):
        yield ("L", (1, 2), e)
        yield ("Z", e, (1, 2))


def coarse(c, k):
    """At this size no radius, difference of radii, chord or turn is as small as the 1e-12 within which numbers count as equal."""
    if c[0] == "A":
        parts = (c[2], c[3], math.hypot(c[7][0] - c[1][0], c[7][1] - c[1][1]))
    elif c[0] == "W":
        parts = c[2][2:4]
    else:
        return True
    turn = c[4] % 90 if c[0] == "A" else math.degrees(c[2][4]) % 90
    if 0 < min(turn, 90 - turn) < 1e-3:
        return False
    return all(abs(x) * k > 1e-9 for x in parts) and (parts[0] == parts[1] or abs(parts[0] - parts[1]) * k > 1e-9)


def segment_sizes(ctx, step):
    return lambda: ((c, k) for c in segment_sample(ctx, step) for k in SIZES if coarse(c, k))


def build_ref(cmds):
    m = R.Machine()
    for letter, groups in cmds:
        m.command(letter, groups)
    return m.segs


_len_cache = {}


def ref_len(s):
    r = _len_cache.get(s)
    if r is None:
        r = _len_cache[s] = R.seg_length(s)
    return r


def path_sides(refs, lens, t):
    """Reference points a path may report at position t: both sides of a junction."""
    tot = sum(lens)
    if tot == 0:
        return None
    out = []
    at = 0.0
    for s, l in zip(refs, lens):
        a, b = at / tot, (at + l) / tot
        if l > 0 and a - 1e-7 <= t <= b + 1e-7:
            out.append(R.seg_point(s, min(1.0, max(0.0, (t - a) / (b - a)))))
        at += l
    if t >= 1 - 1e-7:
        out.append(refs[-1][-1])
    if t <= 1e-7:
        out.append(refs[0][-1] if refs[0][0] == "M" else refs[0][1])
    return out


def fragments(bodies):
    """Those that draw at once and do not close: they can do without the move before them."""
    for b in bodies:
        letters = "".join(c[0] for c in b)
        if letters and letters[0] not in "Mm" and not set("zZ") & set(letters.upper().split("M")[0]):
            yield b


def fragment(p):
    return type(p)(*list(p)[1:])


def P10(ctx):
    S = sp()
    import numpy as np
    POS = [0.0, 1e-12, 0.05, 0.125, 0.25, 1 / 3., 0.4, 0.5, 0.6, 0.75, 0.875, 0.95, 1 - 1e-9, math.nextafter(1.0, 0.0), 1.0]
    M0 = ("M", ((1, 2),))

    def gen():
        for d in range(0, ctx.pick(3, 4) + 1):
            for b in itertools.product(PCS, repeat=d):
                yield b

    def text_of(cmds):
        return R.text(cmds)

    def case_fn(case, rec, headless=False):
        cmds = (M0,) + case
        refs = build_ref(cmds)
        text = text_of(cmds)
        p = S.Path(text)
        if headless:
            refs, p = refs[1:], fragment(p)
            text += " without its move"
        lens = [ref_len(s) for s in refs]
        rec.state([(s, l) for s, l in zip(refs, lens)])
        rec.outcome([s[0] for s in refs])
        rec.step(len(POS))
        tot = sum(lens)
        pos = sorted(set(POS + ([sum(lens[:i]) / tot for i in range(1, len(lens))] if tot else [])))
        pos = [x for x in pos if 0 <= x <= 1]
        err = 1e-7
        a = [tuple(map(float, p.point(t, error=err))) for t in pos]
        b = [tuple(map(float, q)) for q in p.npoint(pos, error=err)]
        c = [tuple(map(float, q)) for q in p.npoint(np.array(pos), error=err)]
        d = [tuple(map(float, q)) for q in p.npoint(tuple(reversed(pos)), error=err)][::-1]
        for t, x, y, z, w in zip(pos, a, b, c, d):
            want = path_sides(refs, lens, t)
            rec.compared(4)
            for how, g in (("point", x), ("npoint(list)", y), ("npoint(array)", z), ("npoint(reversed tuple)", w)):
                if want is None:
                    ok = any(close_pt(g, s[-1], 1e-9) for s in refs)
                else:
                    ok = any(close_pt(g, q, 1e-5) for q in want)
                if not ok:
                    rec.fail(how, "Path(%r).%s at %r = %s, expected one of %s" % (text, how, t, g, want))
                    return
            if not (close_pt(x, y, 1e-7) and close_pt(x, z, 1e-7) and close_pt(x, w, 1e-7)):
                sides = path_sides(refs, lens, t) or [s[-1] for s in refs]
                if len({(round(q[0], 4), round(q[1], 4)) for q in sides}) < 2:
                    rec.fail("point-npoint", "Path(%r) at %r: point %s, npoint %s %s %s" % (text, t, x, y, z, w))
                    return
    ctx.explore("path-points", gen, case_fn, timeout=30, bound="M + all sequences of up to %d of %d pieces x positions incl. every junction" % (
        ctx.pick(3, 4), len(PCS)))
    ctx.explore("fragment-points", lambda: fragments(b for b in gen() if len(b) <= ctx.pick(2, 3)), lambda c, rec: case_fn(c, rec, True), timeout=30,
                bound="all sequences of up to %d of %d pieces without a move before them" % (ctx.pick(2, 3), len(PCS)))

    ctx.explore("large", lambda: large.cases(ctx, ctx.pick(129, 1025)), lambda c, rec: case_fn(large.cmds(*c)[1:], rec), timeout=90,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to %d" % (ctx.pick(20, 70) - 1, ctx.pick(128, 1024)))

    def sizes():
        for d in range(1, ctx.pick(2, 3) + 1):
            for b in itertools.product(PCS, repeat=d):
                for k in SIZES:
                    yield (b, k)

    def size_case(case, rec):
        b, k = case
        refs = build_ref((M0,) + b)
        lens = [ref_len(x) for x in refs]
        tot = sum(lens)
        text = text_of(scaled_cmds((M0,) + b, k))
        p = S.Path(text)
        pos = sorted(set([0.0, 0.13, 0.25, 0.5, 0.8, 1.0] + ([sum(lens[:i]) / tot for i in range(1, len(lens))] if tot else [])))
        pos = [x for x in pos if 0 <= x <= 1]
        rec.state(case)
        rec.outcome(k)
        rec.step(len(pos))
        n = p.npoint(pos, error=1e-7 * k)
        for t, y in zip(pos, n):
            want = path_sides(refs, lens, t) or [x[-1] for x in refs]
            for how, g in (("point", p.point(t, error=1e-7 * k)), ("npoint", y)):
                rec.compared()
                if not any(close_pt((float(g[0]) / k, float(g[1]) / k), q, 1e-5) for q in want):
                    rec.fail("size:" + how, "Path(%r).%s at %r = %s, expected one of %s times %r" % (text, how, t, tuple(map(float, g)), want, k))
                    return
    ctx.explore("sizes", sizes, size_case, timeout=30, bound="M + all sequences of up to %d pieces, at sizes of 2^-30 to 2^30" % ctx.pick(2, 3))

    def arcs():
        for c in itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(2, 1)):
            for form in ("alone", "between", "twice"):
                yield (c, form)

    def acase(case, rec):
        c, form = case
        s, e = c[1], c[-1]
        refs = {"alone": [c], "between": [("M", None, (0, 0)), ("L", (0, 0), s), c, ("L", e, (9, 9)), ("Z", (9, 9), (0, 0))],
                "twice": [c, ("L", e, s), c]}[form]
        p = S.Path([S.Move(None, r[-1]) if r[0] == "M" else mkseg(r) for r in refs])
        lens = [ref_len(c) if r[0] == "W" else R.seg_length(r) for r in refs]
        tot = sum(lens)
        pos = sorted(set([0.0, 0.13, 0.25, 0.5, 0.8, 1.0] + [sum(lens[:i]) / tot for i in range(1, len(lens))]))
        rec.state(case)
        rec.outcome(form)
        rec.step(len(pos))
        size = max(1.0, c[2][2], c[2][3])
        q = p.npoint(pos, error=1e-9)
        for t, b in zip(pos, q):
            want = path_sides(refs, lens, t)
            for how, g in (("point", p.point(t, error=1e-9)), ("npoint", b)):
                rec.compared()
                if not any(close_pt(g, w, 1e-5 * size) for w in want):
                    rec.fail("swept:" + how, "%r: %s at %r is %s, expected one of %s" % (case, how, t, tuple(map(float, g)), want))
                    return
        a = mkseg(c)
        for t, b in zip(pos, a.npoint(pos)):
            w, g = R.seg_point(c, t), a.point(t)
            rec.compared(2)
            if not close_pt(g, w, 1e-9 * size) or not close_pt(b, w, 1e-9 * size):
                rec.fail("swept:segment", "%r: at %r point %s and npoint %s, expected %s" % (c, t, tuple(map(float, g)), tuple(map(float, b)), w))
                return
    ctx.explore("swept-arcs", arcs, acase, timeout=30, bound="arcs of ellipses x rotations x centres x starts x sweeps up to a turn and a half, alone, between lines and twice")

    # the ends of arcs so flat that the ellipse tells them only roughly
    def ends():
        for a in itertools.islice(flat_arcs(9), 0, None, ctx.pick(5, 1)):
            for form in ("alone", "first", "last", "between"):
                for libs in ((), ("numpy", "scipy")) if a[4] == 0 else ((),):
                    yield (a, form, libs)

    def ecase(case, rec):
        from .paths import Without
        a, form, libs = case
        segs = [S.Move(None, (7, -2)), S.Line((7, -2), a[0])] if form in ("last", "between") else [S.Move(None, a[0])] if form == "first" else []
        arc = S.Arc(*a)
        p = S.Path(*(segs + [arc] + ([S.Line(a[6], (9, 9))] if form in ("first", "between") else [])))
        rec.state(case)
        rec.outcome((form, libs))
        size = max(1.0, *(abs(c) for q in (a[0], a[6]) for c in q))
        asks = [(0.0, a[0]), (1.0, a[6])]
        want = {"alone": (a[0], a[6]), "first": (a[0], (9, 9)), "last": (None, a[6]), "between": (None, (9, 9))}[form]
        wants = [(t, w) for t, w in zip((0.0, 1.0), want) if w is not None]
        with Without(*libs):
            for what, x, ws in (("arc", arc, asks), ("path", p, wants)):
                got = [("point", t, x.point(t), w) for t, w in ws]
                kw = {"error": 1e-3} if what == "path" else {}
                for order in ([0.0, 0.5, 1.0], [1.0, 0.5, 0.0], [0.25, 1.0, 0.0, 0.75], [1.0, 1.0, 0.3, 0.0, 0.0, 0.6], [1.0], [0.0]):
                    for q, t in zip(x.npoint(order, **kw), order):
                        got += [("npoint(%s)" % order, t, q, w) for u, w in ws if u == t]
                rec.step(8)
                for how, t, g, w in got:
                    rec.compared()
                    if not close_pt((float(g[0]), float(g[1])), w, 1e-12 * size):
                        return rec.fail("ends:" + what, "%r: %s at %r is %s, expected %s" % (case, how, t, tuple(map(float, g)), w))
    ctx.explore("ends", ends, ecase, timeout=30, bound="%sarcs with radii of 1 to 1e8 times the chord, alone, first, last and between x 7 orders of asking, the smaller ones also without numpy" % ctx.pick("every fifth of ", ""))

    # Junctions over gaps: a path of lines with exact lengths that sum to a power of two.
    def comps(n):
        if n == 0:
            yield ()
        for k in range(1, n + 1):
            for r in comps(n - k):
                yield (k,) + r

    N = ctx.pick(8, 16)

    def ggen():
        for parts in comps(8) if N == 8 else itertools.chain(comps(8), ((2 * a, 2 * b, 16 - 2 * a - 2 * b) for a in range(1, 7) for b in range(1, 8 - a))):
            for gaps in itertools.product((0, 1, 2), repeat=len(parts) - 1) if len(parts) <= ctx.pick(4, 6) else ((1,) * (len(parts) - 1),):
                yield (parts, gaps)

    def gcase(case, rec):
        parts, gaps = case
        total = sum(parts)
        segs = []
        text = "M0,0"
        x = 0
        for i, k in enumerate(parts):
            segs.append((x, x + k))
            x += k
            text += "L%d,0" % x
            if i < len(gaps) and gaps[i]:
                x += 100
                text += "M%d,0" % x + "M%d,0" % (x + 50) * (gaps[i] - 1)
                x += 50 * (gaps[i] - 1)
        p = S.Path(text)
        pos = [i / float(2 * total) for i in range(2 * total + 1)]
        rec.state(case)
        rec.step(len(pos))
        rec.outcome(len(parts))
        a = [tuple(map(float, p.point(t))) for t in pos]
        for how, arg in (("list", pos), ("array", np.array(pos)), ("tuple", tuple(pos))):
            b = [tuple(map(float, q)) for q in p.npoint(arg)]
            rec.compared(len(pos))
            for i, (u, v) in enumerate(zip(a, b)):
                at = i / 2.0
                want = []
                for (s, e), k0 in zip(segs, itertools.accumulate((0,) + parts)):
                    if k0 <= at <= k0 + (e - s):
                        want.append((s + at - k0, 0.0))
                if not any(close_pt(u, w) for w in want):
                    rec.fail("junction", "Path(%r).point(%r) = %s, expected one of %s" % (text, pos[i], u, want))
                    return
                if not close_pt(u, v):
                    rec.fail("junction-sides", "Path(%r) at %r: point %s, npoint(%s) %s" % (text, pos[i], u, how, v))
                    return
    ctx.explore("junctions", ggen, gcase, bound="all compositions of 8 into line lengths x moves (none, one, two) at each junction x all sixteenths of the length")

    GRID = [(0, 0), (4, 0), (1, 3), (-2, 1), (4, 4)] if not ctx.thorough else [(0, 0), (4, 0), (1, 3), (-2, 1), (4, 4), (0, 7), (1e3, -1e-3)]
    TS = [0.0, 0.1, 0.25, 0.5, 0.6, 0.9, 1.0]

    def sgen():
        for a, b in itertools.product(GRID, repeat=2):
            yield ("L", a, b)
            yield ("Z", a, b)
        for c in itertools.product(GRID, repeat=3):
            yield ("Q",) + c
        for c in itertools.product(GRID, repeat=4):
            yield ("C",) + c

    def mk(c):
        return {"L": S.Line, "Z": S.Close, "Q": S.QuadraticBezier, "C": S.CubicBezier}[c[0]](*c[1:])

    def scase(c, rec):
        s = mk(c)
        rec.state(c)
        rec.outcome(c[0])
        rec.step(len(TS))
        n = s.npoint(TS)
        n2 = s.npoint(np.array(TS))
        for t, y, z in zip(TS, n, n2):
            w = R.seg_point(c, t)
            rec.compared(3)
            if not (close_pt(s.point(t), w) and close_pt(y, w) and close_pt(z, w)):
                rec.fail("segment", "%r at %s: point %s, npoint %s, expected %s" % (c, t, tuple(s.point(t)), tuple(y), w))
                return
    ctx.explore("segment-points", sgen, scase, bound="lines, quadratics and cubics with all control points on a %d-point grid" % len(GRID))

    def trivial():
        yield ""
        for n in range(1, 5):
            for c in itertools.product(["M1,1", "L1,1", "Z", "M2,3"], repeat=n):
                if c[0][0] == "M":
                    yield "".join(c)

    def tcase(text, rec):
        p = S.Path(text)
        rec.state(text)
        rec.step()
        rec.outcome(len(p))
        rec.compared()
        if text == "":
            if p.point(0.5) is not None or p.npoint([0.5]) is not None:
                rec.fail("empty", "an empty path has points")
            return
        ends = [tuple(map(float, s.end)) for s in p]
        for q in [p.point(t) for t in POS] + list(p.npoint(POS)):
            if not any(close_pt(q, e) for e in ends) and p.length() == 0:
                rec.fail("zero-length", "Path(%r) of no length has point %s" % (text, tuple(q)))
    ctx.explore("zero-length-paths", trivial, tcase, bound="all paths of up to 4 degenerate commands")
    ctx.assumptions = ["positions between 0 and 1; at a junction either side is accepted", "within a segment the position is the curve parameter"]
    ts = [i / 8.0 for i in range(9)]
    asked.segments(ctx, "asked-segments", [("point(%s)" % t, lambda s, t=t: s.point(t)) for t in ts[1::3]] + [("npoint", lambda s: [tuple(q) for q in s.npoint(ts)])])
    asked.paths(ctx, "asked-paths", [("point(%s)" % t, lambda p, t=t: p.point(t)) for t in ts[::3]] + [("npoint", lambda p: [tuple(q) for q in p.npoint(ts)]), ("point(0.4, error=0.1)", lambda p: p.point(0.4, error=0.1) and None)])


# ---------------------------------------------------------------------------------------
def curve_grid(ctx):
    v = ctx.pick([-3, 0, 1, 4], [-3, -1, 0, 1, 2, 4.5])
    perm = {x: y for x, y in zip(v, v[1:] + v[:1])}
    for a in itertools.product(v, repeat=3):
        for b in itertools.product(v, repeat=3):
            yield ("Q",) + tuple(zip(a, b))
    small = ctx.pick([(0, 0, 0, 0), (0, 1, 2, 3), (0, 4, -3, 1), (1, 1, 4, 4)], None)
    for a in itertools.product(v, repeat=4):
        if small:
            for b in small + [tuple(perm[x] for x in a)]:
                yield ("C",) + tuple(zip(a, b))
                yield ("C",) + tuple(zip(b, a))
        else:
            for b in itertools.product([-3, 0, 2], repeat=4):
                yield ("C",) + tuple(zip(a, b))


def mkseg(c):
    S = sp()
    if c[0] == "A":
        return S.Arc(*c[1:])
    if c[0] == "W":
        cx, cy, rx, ry, phi, t0, dt = c[2]
        return S.Arc(c[1], c[3], (cx, cy), R.arc_point((cx, cy, rx, ry, phi, 0.0, 1.0), 0), R.arc_point((cx, cy, rx, ry, phi, math.pi / 2, 1.0), 0), dt)
    return {"L": S.Line, "Z": S.Close, "Q": S.QuadraticBezier, "C": S.CubicBezier}[c[0]](*c[1:])


def swept_arcs(ctx):
    """Arcs by their parameters: every quadrant to begin in, sweeps of either sign, full turns and more."""
    for rx, ry in ctx.pick(((5, 3), (3, 5), (4, 4), (10, 1)), ((5, 3), (3, 5), (4, 4), (10, 1), (1, 30), (2.5, 2.75), (1e-3, 2e-3), (300, 200))):
        for rot in ctx.pick((0, 30, 90, 135, -100), (0, 10, 30, 45, 80, 90, 135, 180, 200, 270, -100)):
            for cx, cy in ((0, 0), (1, -2)):
                for t0 in ctx.pick((0, 0.3, math.pi / 2, math.pi, 4.0, -1.0), (0, 0.3, 0.8, math.pi / 2, 2.0, 2.9, math.pi, 4.0, 1.5 * math.pi, 5.5, -1.0, -0.1)):
                    for dt in ctx.pick((1e-3, 0.3, math.pi / 2, 2.5, math.pi, 4.0, 6.0, R.TAU, 9.5), (1e-3, 0.05, 0.3, 0.8, math.pi / 2, 2.5, 3.0, math.pi, 3.2, 4.0, 1.5 * math.pi, 5.5, 6.0, 6.28, R.TAU, 9.5)):
                        for d in (dt, -dt):
                            par = (cx, cy, rx, ry, math.radians(rot), t0, d)
                            s, e = R.arc_point(par, 0), R.arc_point(par, 1)
                            yield ("W", s, par, s if dt == R.TAU else e)
    for rot in slight_turns(ctx):
        for rx, ry in ((5, 3), (1, 30)):
            for t0 in (0.3, math.pi):
                for d in (1.2, -2.9, 4.0, -6.0):
                    par = (1, -2, rx, ry, math.radians(rot), t0, d)
                    yield ("W", R.arc_point(par, 0), par, R.arc_point(par, 1))


def special_segments(ctx):
    """Curves that are nearly of a lower order, ellipses that are nearly circles, and everything at other magnitudes."""
    eps = (0.0, 1e-6, -1e-6, 1e-4, -1e-4, 3e-3, -3e-3, 0.02, -0.02, 0.2)
    for k in range(1, 18):
        for e in (3.7 * 10.0 ** -k, -3.7 * 10.0 ** -k):
            for x, y in ((e, 0), (0, e), (e, e / 3), (-e, e)):
                # nearly even lines, nearly folded lines, nearly closed ones
                for a, m, b in (((0, 0), (4, 2), (8, 4)), ((0, 0), (5, 0), (1, 0)), ((1, 1), (1, 1), (4, 2)), ((1, 2), (3.5, 7), (1, 2)), ((0, 0), (10.3, 4.1), (2.06, .82))):
                    yield ("Q", a, (m[0] + x, m[1] + y), b)
                for a, m, n, b in (((0, 0), (1, 2), (2, 4), (3, 6)), ((0, 0), (9, 0), (-5, 0), (3, 0)), ((0, 0), (4, 4), (0, 4), (4, 0)), ((0, 0), (0, 0), (5, 1), (5, 1)),
                                   ((0, 0), (2, 4), (2, 4), (4, 0))):
                    yield ("C", a, (m[0] + x, m[1] + y), n, b)
                    if k % 2:
                        yield ("C", a, m, (n[0] + x, n[1] + y), b)
    for k, e in enumerate(eps):
        for f in eps[k % 2::2] if not ctx.thorough else eps:
            for a, b in (((0, 0), (8, 4)), ((-3, 2), (1, 9)), ((0, 5), (0, -5))):
                # quadratics near a line, with the middle at the middle plus e
                m = ((a[0] + b[0]) / 2 + e, (a[1] + b[1]) / 2 + f)
                yield ("Q", a, m, b)
                # cubics near a raised quadratic: third difference 3 e, 3 f
                for q in ((3, 9), (9, -1), (-6, 0)):
                    c1 = tuple((x + 2 * y) / 3 for x, y in zip(a, q))
                    c2 = ((b[0] + 2 * q[0]) / 3 + e, (b[1] + 2 * q[1]) / 3 + f)
                    yield ("C", a, c1, c2, b)
    for r in (2.0, 5.0):
        for d in (0.1, 0.03, 9e-3, 1e-3, 1e-4, -9e-3, -1e-3):
            for rot in (0, 30, 90):
                for large in (0, 1):
                    for sweep in (0, 1):
                        yield ("A", (0, 0), r, r + d, rot, large, sweep, (2, 1))
    for s in (1e-4, 1e-3, 1e-2, 0.1, 30.0, 1e3, 1e5):
        def z(*p):
            return (p[0] * s, p[1] * s)
        for p in (((0, 0), (1, 4), (3, 1)), ((0, 0), (5, 0), (1, 1)), ((2, 1), (-3, -3), (2, 5))):
            yield ("Q",) + tuple(z(*x) for x in p)
        for p in (((0, 0), (0, 4), (5, 4), (5, 0)), ((0, 0), (7, 1), (-2, 3), (4, 4)), ((1, 1), (3, -5), (4, 8), (2, 2)), ((0, 0), (9, 9), (-4, 9), (5, 0))):
            yield ("C",) + tuple(z(*x) for x in p)
        for rx, ry, rot in ((5, 3, 0), (5, 3, 30), (2, 6, 100), (4, 4, 0)):
            for large in (0, 1):
                for sweep in (0, 1):
                    yield ("A", z(1, 1), rx * s, ry * s, rot, large, sweep, z(3, 2))
        yield ("L", z(1, 2), z(4, -2))
    for a in flat_arcs(6):
        yield ("A",) + a


def seg_scale(c):
    return max(max(abs(x) for x in p) for p in c[1:] if isinstance(p, tuple)) or 1.0


def small_box(c, rec):
    s = mkseg(c)
    w = R.seg_bbox(c)
    g = s.bbox()
    rec.state(c)
    rec.outcome(c[0])
    rec.step()
    rec.compared(4)
    tol = 1e-6 * seg_scale(c)
    if any(abs(x - y) > tol for x, y in zip(g, w)):
        rec.fail("bbox-special:" + c[0], "%r has bbox %s, expected %s" % (c, tuple(map(float, g)), w))


def P11(ctx):
    def gen():
        yield from curve_grid(ctx)
        for a in arc_grid(ctx):
            if not delicate(a):
                yield ("A",) + a
        pts = list(itertools.product([-3, 0, 1.5], repeat=2))
        for a in pts:
            for b in pts:
                yield ("L", a, b)
                yield ("Z", a, b)

    def case_fn(c, rec):
        s = mkseg(c)
        w = R.seg_bbox(c)
        before = obs.snap(s)
        g = s.bbox()
        rec.state(c)
        rec.outcome(c[0])
        rec.step()
        rec.compared(4)
        big = max([1.0] + [abs(x) for x in w])
        tol = 1e-6 * big if c[0] in "AW" else 1e-9 * big
        if any(abs(x - y) > tol for x, y in zip(g, w)):
            rec.fail("bbox:" + c[0], "%r has bbox %s, expected %s" % (c, tuple(map(float, g)), w))
        if obs.snap(s) != before:
            rec.fail("mutates:" + c[0], "bbox() changed %r" % (c,))
    ctx.explore("bbox", gen, case_fn, bound="every line, quadratic and cubic on a coordinate grid and every arc of the parameter grid")
    def size_case(case, rec):
        c, k = case
        g = mkseg(scaled_seg(c, k)).bbox()
        w = R.seg_bbox(c)
        rec.state(case)
        rec.outcome((c[0], k))
        rec.step()
        rec.compared(4)
        tol = 1e-6 * max([1.0] + [abs(x) for x in w])
        if any(abs(x / k - y) > tol for x, y in zip(g, w)):
            rec.fail("bbox-size:" + c[0], "%r times %r has bbox %s, expected %s times that" % (c, k, tuple(map(float, g)), w))
    ctx.explore("bbox-sizes", segment_sizes(ctx, ctx.pick(11, 3)), size_case, bound="every %s segment of the grids at sizes of 2^-30 to 2^30" % ctx.pick("11th", "3rd"))
    ctx.explore("bbox-swept-arcs", lambda: swept_arcs(ctx), case_fn, bound="ellipses x rotations x centres x starts x sweeps up to a turn and a half, both signs")

    def mats():
        for a in itertools.islice(arc_grid(ctx), 0, None, ctx.pick(11, 5)):
            if not delicate(a):
                for m in MATS:
                    yield (a, m)

    def mcase(case, rec):
        """Arcs moved by a matrix, against sampling of the moved reference arc."""
        a, m = case
        s = mkseg(("A",) + a)
        s *= bs().Matrix(*MATS[m])
        g = s.bbox()
        N = 720
        pts = [ap(MATS[m], R.seg_point(("A",) + a, i / N)) for i in range(N + 1)]
        w = (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
        rec.state(case)
        rec.step()
        rec.outcome(m)
        rec.compared(4)
        size = max(w[2] - w[0], w[3] - w[1], 1e-3)
        big = max(abs(x) for x in w)
        lo, hi = 1e-6 * big + 1e-9, 4e-5 * size + 1e-6 * big
        if g[0] - w[0] > lo or g[1] - w[1] > lo or w[2] - g[2] > lo or w[3] - g[3] > lo:
            rec.fail("outside", "arc %r under %s has bbox %s, points reach %s" % (a, m, tuple(map(float, g)), w))
        elif w[0] - g[0] > hi or w[1] - g[1] > hi or g[2] - w[2] > hi or g[3] - w[3] > hi:
            rec.fail("loose", "arc %r under %s has bbox %s, points reach only %s" % (a, m, tuple(map(float, g)), w))
    ctx.explore("bbox-moved-arcs", mats, mcase, bound="arcs of the grid x %d matrices" % len(MATS))

    sub = ["M1,2", "L5,1", "C1,5 4,6 8,2", "z", "M-9,-9", "A5,3 30 0 1 7,4", "Q4,7 6,3"]

    def subs():
        for d in range(0, ctx.pick(4, 5)):
            for b in itertools.product(sub, repeat=d):
                yield "M0,0" + "".join(b)

    def subcase(text, rec):
        S = sp()
        p = S.Path(text)
        rec.state(text)
        rec.step()
        for k, sb in enumerate(p.as_subpaths()):
            boxes = [R.seg_bbox(obs.ref_of(x)) if obs.kind(x) != "A" else x.bbox() for x in sb if obs.kind(x) != "M"]
            g = sb.bbox()
            rec.compared(4)
            rec.outcome(len(boxes))
            w = None if not boxes else (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))
            if (g is None) != (w is None) or g is not None and any(abs(x - y) > 1e-6 for x, y in zip(g, w)):
                rec.fail("subpath", "Path(%r).subpath(%d).bbox() = %s, expected %s" % (text, k, g, w))
    ctx.explore("bbox-large", lambda: (R.text(large.cmds(*c)) for c in large.cases(ctx, 1025)), subcase, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 1024" % (ctx.pick(20, 70) - 1))
    ctx.explore("bbox-subpaths", subs, subcase, bound="all paths of up to %d pieces" % (ctx.pick(3, 4) + 1))
    ctx.explore("bbox-nearly-lower-order", lambda: special_segments(ctx), lambda c, rec: small_box(c, rec),
                bound="curves whose second or third difference is tiny, curves and arcs at seven magnitudes")
    # extrema just inside the ends
    def late():
        near = sorted({f(10.0 ** -k) for k in (1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5) for f in (lambda e: e, lambda e: 1 - e)})
        for size in (1.0, -30.0):
            for axis in (0, 1):
                def both(v, w):
                    return tuple((a, b) if axis == 0 else (b, a) for a, b in zip(v, w))
                for t in near:
                    # b - a over a - 2 b + c
                    for v in ((0.0, 1.0, 2 - 1 / t),):
                        for w in ((0.0, 3.0, 5.0), (1.0, -4.0, 2.0), v):
                            yield ("Q",) + both([x * size for x in v], w)
                    for r in (0.4, 2.0, -1.0, 1 - t, 0.95, 1e-3, 1 + t, -t):
                        # derivative (x - t)(x - r), as differences of control points thrice over
                        d = (t * r, t * r - (t + r) / 2, (1 - t) * (1 - r))
                        v = [0.0]
                        for x in d:
                            v.append(v[-1] + x * size)
                        for w in ((0.0, 3.0, 5.0, 6.0), (1.0, -4.0, 2.0, 0.0)):
                            yield ("C",) + both(v, w)

    def latecase(c, rec):
        s = mkseg(c)
        w, g = R.seg_bbox(c), s.bbox()
        rec.state(c)
        rec.outcome(c[0])
        rec.step()
        rec.compared(4)
        if any(abs(x - y) > 1e-11 * seg_scale(c) for x, y in zip(g, w)):
            rec.fail("bbox-late:" + c[0], "%r has bbox %s, expected %s" % (c, tuple(map(float, g)), w))
    ctx.explore("bbox-late", late, latecase, bound="quadratics and cubics with a turning point 0.1 to 1e-5 from either end, and another anywhere, on either axis")
    ctx.assumptions = ["arcs whose chord is a diameter to 1e-6 are left out"]
    asked.segments(ctx, "bbox-asked", [("bbox", lambda s: s.bbox())])
    asked.paths(ctx, "bbox-asked-paths", [("boxes", lambda p: [s.bbox() for s in p.as_subpaths()]), ("segment boxes", lambda p: [s.bbox() for s in p])])


# ---------------------------------------------------------------------------------------
def P12(ctx):
    S = sp()

    def gen():
        yield from curve_grid(ctx)
        for a in arc_grid(ctx):
            if not delicate(a):
                yield ("A",) + a
        pts = list(itertools.product([-3, 0, 1.5], repeat=2))
        for a in pts:
            for b in pts:
                yield ("L", a, b)
                yield ("Z", a, b)
        for a, b in ((0, 0), (0, 4), (5, 0)):
            yield ("A", (0, 0), a, b, 10, 0, 1, (3, 4))
        yield ("A", (1, 1), 5, 3, 10, 0, 1, (1, 1))

    def case_fn(c, rec):
        s = mkseg(c)
        w = R.seg_length(c, 1e-9)
        g = s.length()
        g2 = s.length(error=1e-5)
        rec.state(c)
        rec.outcome(c[0])
        rec.step(2)
        rec.compared(2)
        if not abs(g - w) <= 1e-6 * max(1.0, w):
            rec.fail("length:" + c[0], "%r has length %r, expected %r" % (c, g, w))
        if not abs(g2 - w) <= 1e-4 * max(1.0, w):
            rec.fail("length-error:" + c[0], "%r has length(error=1e-5) %r, expected %r" % (c, g2, w))
        chord = math.hypot(c[-1][0] - c[1][0], c[-1][1] - c[1][1])
        if g < chord - 1e-9 * max(1, chord):
            rec.fail("chord:" + c[0], "%r has length %r, shorter than its chord %r" % (c, g, chord))
    ctx.explore("length", gen, case_fn, timeout=30, bound="every line, quadratic and cubic on a coordinate grid, every arc of the parameter grid")
    def size_case(case, rec):
        c, k = case
        s = mkseg(scaled_seg(c, k))
        w = ref_len(c)
        rec.state(case)
        rec.outcome((c[0], k))
        rec.step(2)
        rec.compared(2)
        asked = [("error=1e-9", s.length(error=1e-9 * k)), ("error=1e-12", s.length(error=1e-12 * k))]
        if k > 1:
            asked += [("", s.length()), ("p", (S.Path(s) if c[0] != "Z" else s).length())]
        for how, g in asked:
            if not abs(g / k - w) <= 1e-6 * max(1.0, w):
                return rec.fail("length-size:" + c[0], "%r times %r has length(%s) %r, expected %r times that" % (c, k, how, g, w))
    ctx.explore("length-sizes", segment_sizes(ctx, ctx.pick(37, 7)), size_case, timeout=30, bound="every %s segment of the grids at sizes of 2^-30 to 2^30" % ctx.pick("37th", "7th"))
    ctx.explore("length-swept-arcs", lambda: swept_arcs(ctx), case_fn, timeout=30, bound="ellipses x rotations x centres x starts x sweeps up to a turn and a half, both signs")

    def paths():
        for d in range(0, ctx.pick(3, 4) + 1):
            for b in itertools.product(PCS, repeat=d):
                yield b

    def pcase(case, rec, headless=False):
        cmds = (("M", ((1, 2),)),) + case
        refs = build_ref(cmds)
        text = R.text(cmds)
        p = S.Path(text)
        if headless:
            refs, p = refs[1:], fragment(p)
            text += " without its move"
        w = sum(ref_len(s) for s in refs)
        g = p.length(error=1e-7)
        rec.state(refs)
        rec.outcome([s[0] for s in refs])
        rec.step()
        rec.compared(2)
        if not abs(g - w) <= 1e-6 * max(1, w):
            rec.fail("path", "Path(%r).length() = %r, expected %r" % (text, g, w))
        if p.length(error=1e-7) != g:
            rec.fail("path-again", "Path(%r).length() changes when asked again" % text)
        q = S.Path([seg * "rotate(37) translate(5,-2)" for seg in p])
        if not abs(q.length(error=1e-7) - w) <= 1e-6 * max(1, w):
            rec.fail("path-moved", "Path(%r) has length %r, moved rigidly %r" % (text, g, q.length()))
    ctx.explore("path-length-large", lambda: large.cases(ctx, ctx.pick(257, 1025)), lambda c, rec: pcase(large.cmds(*c)[1:], rec), timeout=90,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to %d" % (ctx.pick(20, 70) - 1, ctx.pick(256, 1024)))
    ctx.explore("path-length", paths, pcase, timeout=30, bound="M + all sequences of up to %d of %d pieces, also moved rigidly" % (ctx.pick(3, 4), len(PCS)))
    ctx.explore("fragment-length", lambda: fragments(b for b in paths() if len(b) <= ctx.pick(2, 3)), lambda c, rec: pcase(c, rec, True), timeout=30,
                bound="all sequences of up to %d of %d pieces without a move before them" % (ctx.pick(2, 3), len(PCS)))

    def scase(c, rec):
        s = mkseg(c)
        scale = seg_scale(c)
        w = R.seg_length(c, 1e-10 * min(1.0, scale))
        g = s.length()
        rec.state(c)
        rec.outcome(c[0])
        rec.step()
        rec.compared()
        if not abs(g - w) <= 1e-6 * max(w, scale):
            rec.fail("length-special:" + c[0], "%r has length %r, expected %r" % (c, g, w))
    ctx.explore("length-nearly-lower-order", lambda: special_segments(ctx), scase, timeout=30,
                bound="curves whose second or third difference is tiny, nearly circular arcs, curves and arcs at seven magnitudes")

    def fallback():
        for c in itertools.islice(curve_grid(ctx), 0, None, ctx.pick(97, 41)):
            yield c
        for a in itertools.islice(arc_grid(ctx), 0, None, ctx.pick(37, 31)):
            if not delicate(a):
                yield ("A",) + a
        yield from itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(7, 13))

    def fcase(c, rec):
        from .paths import Without
        s = mkseg(c)
        w = R.seg_length(c, 1e-9)
        with Without("scipy"):
            g = s.length(error=1e-4)
        rec.state(c)
        rec.outcome(c[0])
        rec.step()
        rec.compared()
        if not abs(g - w) <= 1e-3 * max(1, w):
            rec.fail("fallback:" + c[0], "without scipy %r has length(error=1e-4) %r, expected %r" % (c, g, w))
    ctx.explore("length-without-scipy", fallback, fcase, timeout=60, bound="every 97th curve, 37th arc and 7th swept arc of the grids (thorough: 41st, 31st, 13th of larger grids), scipy missing")

    # a coarse measurement must not be taken for a fine one
    asks = [("length", 5.0), ("length", 1e-2), ("length", 1e-5), ("point", 5.0), ("npoint", 1.0)]
    drawn = ["M0,0C0,100 1,100 200,-50 A 100,30 20 0 1 50,50", "M0,0A70,20 0 1 1 9,9z", "M0,0C90,0 -40,0 50,1 L60,0M5,5q9,80 1,3"]

    def before():
        for d in drawn:
            for lib in (False, True):
                for k in range(1, ctx.pick(3, 4)):
                    for h in itertools.product(range(len(asks)), repeat=k):
                        yield (d, lib, h)

    def bcase(case, rec):
        from .paths import Without
        d, lib, h = case
        with Without(*(() if lib else ("scipy",))):
            p = S.Path(d)
            for i in h:
                what, e = asks[i]
                if what == "length":
                    p.length(error=e)
                elif what == "point":
                    p.point(0.4, error=e)
                else:
                    p.npoint([0.1, 0.7], error=e)
                rec.step()
            got = p.length(error=1e-5), p.point(0.3, error=1e-5), p.npoint([0.6], error=1e-5)[0]
            q = S.Path(d)
            want = q.length(error=1e-5), q.point(0.3, error=1e-5), q.npoint([0.6], error=1e-5)[0]
        rec.state(case)
        rec.outcome(h)
        rec.compared(3)
        tol = 1e-5 if lib else 1e-2
        if not abs(got[0] - want[0]) <= tol:
            rec.fail("after-coarse", "Path(%r) asked %s %s scipy: then length(error=1e-5) is %r, of a new path %r" % (
                d, [asks[i] for i in h], "with" if lib else "without", got[0], want[0]))
        if not (close_pt(got[1], want[1], 1e-2) and close_pt(got[2], want[2], 1e-2)):
            rec.fail("after-coarse-point", "Path(%r) asked %s %s scipy: then points %s, of a new path %s" % (
                d, [asks[i] for i in h], "with" if lib else "without", got[1:], want[1:]))
    ctx.explore("measured-before", before, bcase, timeout=30, bound="3 paths with and without scipy x all histories of up to %d of 5 measurements of any error, then a fine one" % ctx.pick(2, 3))
    ctx.assumptions = ["arcs whose chord is a diameter to 1e-6 are left out", "without scipy the error holds for every chord, the sum to a thousandth"]
    asked.segments(ctx, "length-asked", [("length", lambda s: s.length()), ("length(1e-9)", lambda s: s.length(error=1e-9))])


# ---------------------------------------------------------------------------------------
MATS = {
    "identity": (1, 0, 0, 1, 0, 0), "translate": (1, 0, 0, 1, 3, -4), "scale": (2, 0, 0, 2, 0, 0), "scale-xy": (2, 0, 0, 0.5, 1, 1),
    "mirror-x": (-1, 0, 0, 1, 0, 0), "mirror-y": (1, 0, 0, -1, 5, 0), "turn-90": (0, 1, -1, 0, 0, 0), "turn-180": (-1, 0, 0, -1, 2, 2),
    "turn-30": (math.cos(math.pi / 6), 0.5, -0.5, math.cos(math.pi / 6), 0, 0), "swap": (0, 1, 1, 0, 0, 0), "mirror-diag": (0, -1, -1, 0, 1, 0),
    "skew-x": (1, 0, 0.5, 1, 0, 0), "skew-y": (1, -2, 0, 1, 0, 3), "general": (1, 2, 2, 1, -1, 4), "general2": (0.3, -1.1, 0.7, 0.9, 10, 20),
    "turn-135-scale": (-1.5, 1.5, -0.4, -0.4, 0, 0), "tiny": (1e-3, 0, 0, 1e-3, 0, 0), "huge": (1e4, 2e3, -1e3, 1e4, 7e5, 1),
}


def ap(m, p):
    a, b, c, d, e, f = m
    return (a * p[0] + c * p[1] + e, b * p[0] + d * p[1] + f)


def mul(m, n):
    """Apply m first, then n."""
    a, b, c, d, e, f = m
    A, Bb, C, D, E, F = n
    return (A * a + C * b, Bb * a + D * b, A * c + C * d, Bb * c + D * d, A * e + C * f + E, Bb * e + D * f + F)


def P13(ctx):
    S, B = sp(), bs()
    SEGS = [("L", (1, 2), (5, 1)), ("Z", (5, 1), (1, 2)), ("Q", (1, 2), (4, 7), (6, 3)), ("C", (1, 2), (1, 5), (4, 6), (8, 2)),
            ("A", (1, 2), 5, 3, 30, 0, 1, (7, 4)), ("A", (1, 2), 5, 3, 30, 1, 1, (7, 4)), ("A", (1, 2), 5, 3, -30, 0, 0, (7, 4)), ("A", (1, 2), 5, 3, 100, 1, 0, (7, 4)),
            ("A", (0, 0), 4, 4, 0, 1, 0, (3, 3)), ("A", (0, 0), 9, 2, 0, 0, 1, (0, 3)), ("A", (0, 0), 3, 0, 0, 0, 1, (5, 5)), ("A", (0, 0), 2, 9, 90, 0, 1, (0, 3)),
            ("A", (0, 0), 2, 2, 45, 0, 1, (0, 3))]
    TS = [0, 0.1, 0.25, 0.5, 0.7, 0.9, 1]
    names = list(MATS)

    def gen():
        for s in SEGS:
            for d in range(1, ctx.pick(3, 4)):
                for ms in itertools.product(names, repeat=d):
                    yield (s, ms)

    def swept():
        for s in itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(3, 1)):
            for n in names:
                yield (s, (n,))

    def total(ms):
        m = (1, 0, 0, 1, 0, 0)
        for n in ms:
            m = mul(m, MATS[n])
        return m

    def case_fn(case, rec):
        c, ms = case
        s = mkseg(c)
        for n in ms:
            s *= B.Matrix(*MATS[n])
            rec.step()
        m = total(ms)
        big = max(1.0, *(abs(x) for x in m)) * 20
        rec.state((c[0], [round(x, 9) for x in obs.P(s.start) + obs.P(s.end)], round(float(getattr(s, "sweep", 0)), 6)))
        rec.outcome((c[0], len(ms)))
        for t in TS:
            w, g = ap(m, R.seg_point(c, t)), s.point(t)
            rec.compared()
            if max(abs(w[0] - g[0]), abs(w[1] - g[1])) > (1e-7 if c[0] not in "AW" else 2e-6) * big:
                rec.fail("point:" + c[0], "%r under %s: point(%s) = %s, expected %s" % (c, ms, t, tuple(map(float, g)), w))
                return
        if not all(close_pt(x, ap(m, y), 1e-8) for x, y in ((s.start, c[1]), (s.end, c[-1]))):
            rec.fail("ends:" + c[0], "%r under %s: end points %s %s" % (c, ms, s.start, s.end))
    ctx.explore("segments", gen, case_fn, bound="%d segments x all sequences of up to %d of %d matrices" % (len(SEGS), ctx.pick(2, 3), len(MATS)))

    def size_gen():
        for c in SEGS:
            for n in names:
                for k in SIZES:
                    yield (c, n, k, 1.0)
                    yield (c, n, 1.0, k)
                    yield (c, n, k, 1 / k)

    def size_case(case, rec):
        c, n, k, h = case
        s = mkseg(scaled_seg(c, k))
        a, b, cc, d, e, f = MATS[n]
        s *= B.Matrix(a * h, b * h, cc * h, d * h, e * h * k, f * h * k)
        rec.step()
        rec.state(case)
        rec.outcome((c[0], k, h))
        big = max(1.0, *(abs(x) for x in MATS[n])) * 20
        for t in TS:
            w, g = ap(MATS[n], R.seg_point(c, t)), s.point(t)
            rec.compared()
            if max(abs(w[0] - g[0] / h / k), abs(w[1] - g[1] / h / k)) > 2e-6 * big:
                return rec.fail("size:" + c[0], "%r times %r under %s times %r: point(%s) = %s, expected %s times both" % (c, k, n, h, t, tuple(map(float, g)), w))
    ctx.explore("sizes", size_gen, size_case, bound="%d segments x %d matrices, either and both at sizes of 2^-30 to 2^30" % (len(SEGS), len(MATS)))

    ctx.explore("swept-arcs", swept, case_fn, bound="every %s arc of ellipses x rotations x centres x starts x sweeps up to a turn and a half x %d matrices" % (ctx.pick("third", ""), len(MATS)))

    def text(m):
        return "matrix(%s)" % ",".join(repr(float(x)) for x in m)
    PATHS = [((("M", ((1, 2),)),) + b) for b in itertools.product(PCS, repeat=ctx.pick(2, 3))]
    FORMS = {
        "Matrix * p": lambda p, m: B.Matrix(*m) * p, "text @ p": lambda p, m: text(m) @ p, "Matrix * each": lambda p, m: S.Path([B.Matrix(*m) * x for x in p]),
        "p *= Matrix": lambda p, m: p.__imul__(B.Matrix(*m)), "p * Matrix": lambda p, m: p * B.Matrix(*m), "p * text": lambda p, m: p * text(m),
        "p @= text": lambda p, m: p.__imatmul__(text(m)), "p @ Matrix": lambda p, m: p @ B.Matrix(*m), "Matrix-each": lambda p, m: S.Path([x * B.Matrix(*m) for x in p]),
        "subpaths *= Matrix": lambda p, m: subs(p, m),
    }

    def subs(p, m):
        for s in list(p.as_subpaths()):
            s *= B.Matrix(*m)
        return p

    def pgen():
        for c in PATHS:
            for m in names:
                for f in FORMS:
                    yield (c, m, f)

    def pcase(case, rec, headless=False):
        cmds, mn, form = case
        refs = build_ref(cmds)
        p = S.Path(R.text(cmds))
        if headless:
            refs, p = refs[1:], fragment(p)
        m = MATS[mn]
        q = FORMS[form](p, m)
        rec.step()
        rec.state((obs.snap_path(q), form))
        rec.outcome((mn, form))
        big = max(1.0, *(abs(x) for x in m)) * 20
        if len(q) != len(refs):
            rec.fail("count:" + form, "%r: %d segments, expected %d" % (case, len(q), len(refs)))
            return
        for i, (s, r) in enumerate(zip(q, refs)):
            if s is None or obs.kind(s) != r[0]:
                rec.fail("kind:" + form, "%r: segment %d is %r" % (case, i, s))
                return
            ts = (1,) if r[0] == "M" else (0, 0.3, 0.8, 1)
            for t in ts:
                w = ap(m, R.seg_point(r, t))
                g = s.end if r[0] == "M" else s.point(t)
                rec.compared()
                if max(abs(w[0] - g[0]), abs(w[1] - g[1])) > 2e-6 * big:
                    rec.fail("path:" + form, "%r: segment %d point(%s) = %s, expected %s" % (case, i, t, tuple(map(float, g)), w))
                    return
        if form in ("p *= Matrix", "p @= text") and q is not p:
            rec.fail("inplace:" + form, "%s returns another object" % form)
        bad = obs.linkage(q) if mn not in ("huge",) else None
        if bad:
            rec.fail("linkage:" + form, "%r: %s" % (case, bad))
    ctx.explore("paths", pgen, pcase, bound="all paths of %d pieces x %d matrices x %d operator forms" % (ctx.pick(2, 3), len(MATS), len(FORMS)))
    ctx.explore("fragments", lambda: ((c[:1] + b, m, f) for c in PATHS[:1] for n in (1, 2) for b in fragments(itertools.product(PCS, repeat=n)) for m in names for f in FORMS),
                lambda c, rec: pcase(c, rec, True), bound="all paths of up to 2 pieces without a move before them x %d matrices x %d operator forms" % (len(MATS), len(FORMS)))

    ctx.explore("large", lambda: ((large.cmds(*c), m, f) for c in large.cases(ctx, ctx.pick(257, 1025)) for m in ("general", "turn-135-scale", "mirror-y") for f in FORMS), pcase, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to %d x 3 matrices x 10 operator forms" % (ctx.pick(20, 70) - 1, ctx.pick(256, 1024)))

    # the same after editing: nothing an edit leaves behind may be moved twice or not at all
    BASES = ["M1,2 L4,6 Q6,8 9,3 z", "M1,2 L4,6 L7,1", "M0,0 H5 V4 z M6,1 C7,2 8,3 9,1 L6,5 z M2,2 L3,9", "M1,1 A3,2 30 0 1 6,4 L2,8 Z L0,3 z", "M3,3 M5,1 L2,2 z"]

    def sub(i, f):
        def g(p):
            subs_ = list(p.as_subpaths())
            if subs_:
                f(subs_[min(i, len(subs_) - 1)])
        return g

    def at(i, seg):
        def g(p):
            if len(p) > i:
                p[i] = seg()
        return g

    def delete(i):
        def g(p):
            if len(p) > i:
                del p[i]
        return g

    def write_slice(p):
        p[1:2] = [S.Line((4, 6), (5, 5)), S.Line((5, 5), (4, 7))]
    EDITS = {
        "reverse": lambda p: p.reverse(), "sub0.reverse": sub(0, lambda s: s.reverse()), "sub1.reverse": sub(1, lambda s: s.reverse()),
        "del 0": delete(0), "del 1": delete(1), "del -1": lambda p: p.__delitem__(-1) if len(p) else None,
        "set 1": at(1, lambda: S.Line((0, 0), (3, 8))), "set 0": at(0, lambda: S.Move((8, 8))), "insert 1": lambda p: p.insert(1, S.Line((2, 2), (7, 3))),
        "insert 0": lambda p: p.insert(0, S.Move((2, 9))), "append": lambda p: p.append(S.Line((1, 1), (6, 2))), "append z": lambda p: p.append(S.Close()),
        "+= text": lambda p: p.__iadd__("l3,1 t2,2"), "+= path": lambda p: p.__iadd__(S.Path("M5,5 L7,7 z")), "+= itself": lambda p: p.__iadd__(S.Path(p)),
        "close": lambda p: p.closed(), "move": lambda p: p.move((4, 4)), "line": lambda p: p.line((4, 4), (6, 1)), "smooth": lambda p: p.smooth_cubic((5, 5), (7, 2)),
        "direct close": lambda p: p.direct_close() if hasattr(p, "direct_close") else None,
        "arcs to cubics": lambda p: p.approximate_arcs_with_cubics(), "arcs to quads": lambda p: p.approximate_arcs_with_quads(),
        "sub0[1] =": sub(0, lambda s: s.__setitem__(1, S.Line((1, 2), (5, 7))) if len(s) > 1 else None), "sub1 del 1": sub(1, lambda s: s.__delitem__(1) if len(s) > 1 else None),
        "slice =": write_slice, "own segments": lambda p: p.__setitem__(slice(0, len(p)), list(p)),
        "extend": lambda p: p.extend([S.Line((9, 9), (8, 8)), S.Close()]),
    }
    MOVES = {"p *= m": lambda p, m: p.__imul__(B.Matrix(*m)), "subpaths *= m": lambda p, m: subs(p, m), "segments *= m": lambda p, m: each(p, m),
             "p * m": lambda p, m: p * B.Matrix(*m)}

    def each(p, m):
        for s in list(p):
            s *= B.Matrix(*m)
        return p

    def egen():
        for b in BASES:
            for n in range(1, ctx.pick(2, 3) + 1):
                for h in itertools.product(EDITS, repeat=n):
                    yield (b, h)

    def ecase(case, rec):
        b, h = case
        m = MATS["general"]

        def made():
            p = S.Path(b)
            for e in h:
                EDITS[e](p)
                rec.step()
            return p
        try:
            p0 = made()
        except (ValueError, IndexError, TypeError, AttributeError, RuntimeError) as e:
            rec.outcome("refused")
            return
        before = [(obs.kind(s), obs.P(s.start), obs.P(s.end), None if obs.kind(s) in "MLZ" or s.start is None or s.end is None else [obs.P(s.point(t)) for t in (0.2, 0.5, 0.9)]) for s in p0]
        rec.state(tuple(map(repr, before)))
        for form, fn in MOVES.items():
            q = fn(made(), m)
            rec.step()
            rec.outcome((len(before), form))
            rec.compared(len(before))
            if len(q) != len(before):
                rec.fail("edited-count", "Path(%r) after %s: %s leaves %d segments of %d" % (b, h, form, len(q), len(before)))
                return
            for i, (s, (k, st, en, pts)) in enumerate(zip(q, before)):
                ok = obs.kind(s) == k
                for w, g in [(st, s.start), (en, s.end)] + ([] if pts is None else [(x, s.point(t)) for x, t in zip(pts, (0.2, 0.5, 0.9))]):
                    if w is None or g is None:
                        ok = ok and w is None and g is None
                    else:
                        ok = ok and close_pt(ap(m, w), g, 1e-6)
                if not ok:
                    rec.fail("edited:" + form, "Path(%r) after %s: segment %d was %s from %s to %s, %s makes it %r" % (b, h, i, k, st, en, form, s))
                    return
    ctx.explore("edited-first", egen, ecase, bound="%d paths x all histories of up to %d of %d edits x %d ways to move them" % (len(BASES), ctx.pick(2, 3), len(EDITS), len(MOVES)))
    ctx.assumptions = ["matrices are invertible; points compared to 2e-6 of the matrix size", "no segment object stands in a path twice"]
    asked.segments(ctx, "asked", [("points", lambda s: [tuple(s.point(i / 8.0)) for i in range(9)]), ("product", lambda s: [tuple((s * "matrix(1 2 -3 4 5 6)").point(i / 8.0)) for i in range(9)])])
    asked.paths(ctx, "asked-paths", [("points", asked.path_points), ("product", lambda p: asked.path_points(p * "matrix(1 2 -3 4 5 6)"))])


# ---------------------------------------------------------------------------------------
def P14(ctx):
    S, B = sp(), bs()

    def gen():
        for a in itertools.islice(arc_grid(ctx), 0, None, ctx.pick(3, 1)):
            if not delicate(a):
                for n in (None, 1, 4, 7):
                    yield (a, n)

    def implicit(par, p):
        cx, cy, rx, ry, phi, t1, dt = par
        x, y = p[0] - cx, p[1] - cy
        u = (math.cos(phi) * x + math.sin(phi) * y) / rx
        v = (-math.sin(phi) * x + math.cos(phi) * y) / ry
        return math.hypot(u, v)

    def case_fn(case, rec):
        a, n = case
        c0 = a if a[0] == "W" else ("A",) + a
        arc = mkseg(c0)
        par = R.arc_params(c0)
        before = obs.snap(arc)
        sweep = abs(par[-1])
        rec.state(case)
        rec.step(2)
        for name, curves, deg in (("cubic", list(arc.as_cubic_curves(n)), 3), ("quad", list(arc.as_quad_curves(n)), 2)):
            rec.compared()
            rec.outcome((name, len(curves)))
            want = n if n is not None else math.ceil(sweep / (R.TAU / 12))
            if len(curves) != want and not (n is None and abs(len(curves) - sweep / (R.TAU / 12)) < 1 + 1e-6):
                rec.fail("number:" + name, "%r: %d curves, expected %d" % (case, len(curves), want))
                return
            if any(obs.kind(c) != ("C" if deg == 3 else "Q") for c in curves):
                rec.fail("kind:" + name, "%r: %r" % (case, curves))
                return
            if not close_pt(curves[0].start, c0[1]) or not close_pt(curves[-1].end, c0[-1]):
                rec.fail("ends:" + name, "%r: curves run from %s to %s" % (case, curves[0].start, curves[-1].end))
                return
            slice_ = sweep / len(curves)
            if slice_ > R.TAU / 4 + 1e-9:
                continue  # one curve for more than a quarter turn is not an approximation
            q = (slice_ / (R.TAU / 4))
            tol = (2e-3 * q ** 6 if deg == 3 else 0.075 * q ** 2) + 1e-6
            if par[2] / par[3] > 50 or par[3] / par[2] > 50:
                tol += 1e-4
            prev = None
            for i, c in enumerate(curves):
                if prev is not None and not close_pt(prev, c.start, 1e-9):
                    rec.fail("gap:" + name, "%r: curve %d does not start where the last ended" % (case, i))
                    return
                prev = c.end
                for u in (0, 0.25, 0.5, 0.75, 1):
                    w = R.seg_point(c0, (i + u) / len(curves))
                    p = R.seg_point(obs.ref_of(c), u)
                    r = implicit(par, p)
                    rec.compared()
                    if abs(r - 1) > tol:
                        rec.fail("off:" + name, "%r: curve %d at %s is %s, %.3g of the radius off the ellipse" % (case, i, u, p, abs(r - 1)))
                        return
                    # the same place on the ellipse
                    cx, cy, rx, ry, phi, t1, dt = par
                    d = math.hypot((math.cos(phi) * (p[0] - w[0]) + math.sin(phi) * (p[1] - w[1])) / rx,
                                   (-math.sin(phi) * (p[0] - w[0]) + math.cos(phi) * (p[1] - w[1])) / ry)
                    if d > 0.02 + tol:
                        rec.fail("place:" + name, "%r: curve %d at %s is %s, the arc is at %s" % (case, i, u, p, w))
                        return
        if obs.snap(arc) != before:
            rec.fail("mutates", "approximating %r changed it" % (a,))
    ctx.explore("arc-curves", gen, case_fn, bound="arc parameter grid x default, 1, 4 and 7 curves")
    ctx.explore("swept-arcs", lambda: ((c, n) for c in itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(2, 1)) for n in (None, 4, 9)), case_fn,
                bound="every %s arc of ellipses x rotations x centres x starts x sweeps up to a turn and a half, by default, 4 and 9 curves" % ctx.pick("second", ""))

    def flat_case(case, rec):
        a, n = case
        arc = S.Arc(*a)
        rec.state(case)
        rec.step(2)
        rec.outcome((a[4], a[5]))
        chord = math.hypot(a[6][0] - a[0][0], a[6][1] - a[0][1])
        m = R.seg_point(("A",) + a, 0.5)
        rise = math.hypot(m[0] - (a[0][0] + a[6][0]) / 2, m[1] - (a[0][1] + a[6][1]) / 2)
        for name, curves in (("cubic", list(arc.as_cubic_curves(n))), ("quad", list(arc.as_quad_curves(n)))):
            rec.compared(4)
            if len(curves) != (n or 1):
                rec.fail("flat number:" + name, "%r: %d curves" % (case, len(curves)))
                return
            if not (close_pt(curves[0].start, a[0], 1e-12 * max(1.0, chord)) and close_pt(curves[-1].end, a[6], 1e-12 * max(1.0, chord))):
                return rec.fail("flat ends:" + name, "%r: curves run from %s to %s" % (case, curves[0].start, curves[-1].end))
            for x, y in zip(curves, curves[1:]):
                if not close_pt(x.end, y.start, 1e-12 * max(1.0, chord)):
                    return rec.fail("flat gap:" + name, "%r: %s and %s" % (case, x.end, y.start))
            for i, c in enumerate(curves):
                for u in (0, 0.3, 0.5, 1):
                    w, g = R.seg_point(("A",) + a, (i + u) / len(curves)), c.point(u)
                    if max(abs(w[0] - g[0]), abs(w[1] - g[1])) > 1e-4 * chord + 1e-14 * max(a[1], a[2]) + (0.3 * rise if name == "quad" else 0):
                        rec.fail("flat off:" + name, "%r: curve %d passes %s at %s, the arc %s" % (case, i, tuple(g), u, w))
                        return
    def size_gen():
        for c in itertools.chain((("A",) + a for a in itertools.islice((a for a in arc_grid(ctx) if not delicate(a)), 0, None, ctx.pick(29, 7))), itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(29, 7))):
            for k in SIZES:
                for n in (None, 4):
                    if coarse(c, k):
                        yield (c, k, n)

    def size_case(case, rec):
        c, k, n = case
        a, b = mkseg(c), mkseg(scaled_seg(c, k))
        par = R.arc_params(c)
        tol = 1e-5 * max(1.0, abs(par[0]), abs(par[1]), par[2], par[3])
        rec.state(case)
        rec.outcome(k)
        rec.step(2)
        for how in ("as_cubic_curves", "as_quad_curves"):
            x, y = list(getattr(a, how)(n)), list(getattr(b, how)(n))
            rec.compared(len(x))
            # one curve more or less where the sweep is a whole number of slices
            if len(x) != len(y) and not (n is None and abs(len(x) - len(y)) == 1 and abs(abs(par[-1]) * 12 / R.TAU - round(abs(par[-1]) * 12 / R.TAU)) < 1e-6):
                return rec.fail("size number:" + how, "%r: %d curves of the arc, %d of the scaled one" % (case, len(x), len(y)))
            if len(x) == len(y):
                for p, q in zip(x, y):
                    for u, v in zip(obs.ref_of(p)[1:], obs.ref_of(q)[1:]):
                        if max(abs(u[0] - v[0] / k), abs(u[1] - v[1] / k)) > tol:
                            return rec.fail("size curve:" + how, "%r: %r of the arc, %r of the scaled one" % (case, p, q))
    ctx.explore("sizes", size_gen, size_case, bound="every %s arc of both grids at sizes of 2^-30 to 2^30, default and 4 curves" % ctx.pick("29th", "7th"))
    ctx.explore("flat-arcs", lambda: [(a, n) for a in flat_arcs(9) for n in (None, 1, 3) if a[4] == 0 and min(a[1:3]) > 15], flat_case,
                bound="arcs with radii of 10 to 1e8 times the chord x default, 1 and 3 curves")

    def every():
        for a in itertools.chain((a for a in itertools.islice(arc_grid(ctx), 0, None, ctx.pick(13, 5)) if not delicate(a)), itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(13, 5))):
            for e in (None, 0.01, 0.03, 1 / 12, 0.25, 0.3, 0.5, 1.0):
                yield (a, e)
        for a in itertools.chain((a for a in itertools.islice(arc_grid(ctx), 0, None, ctx.pick(211, 41)) if not delicate(a)), itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(101, 31))):
            for e in (1e-3, 2.5e-3, 7e-3):
                yield (a, e)

    def every_case(case, rec):
        a, e = case
        c0 = a if a[0] == "W" else ("A",) + a
        par = R.arc_params(c0)
        ratio = abs(par[-1]) / (R.TAU * (0.1 if e is None else e))
        arc = mkseg(c0)
        rec.state(case)
        for how, k, f in (("cubics", "C", arc.as_cubic_curves), ("quads", "Q", arc.as_quad_curves)):
            p = S.Path(S.Move((0, 0)), S.Line((0, 0), c0[1]), mkseg(c0), S.Line(c0[-1], (9, 9)), S.Close((9, 9), (0, 0)))
            g = getattr(p, "approximate_arcs_with_" + how)
            g() if e is None else g(error=e)
            n = len(p) - 4
            w = list(f(n))
            rec.step()
            rec.compared(3)
            rec.outcome(n)
            if n not in (math.ceil(ratio - 1e-9), math.ceil(ratio + 1e-9)) or [obs.kind(x) for x in p] != list("ML" + k * n + "LZ"):
                rec.fail("every number", "%r: %s, expected %.3f curves, rounded up" % (case, [obs.kind(s) for s in p], ratio))
                continue
            if obs.linkage(p):
                rec.fail("every linkage", "%r: %s" % (case, obs.linkage(p)))
            scale = max(1.0, abs(par[0]), abs(par[1]), par[2], par[3])
            for x, y in zip(list(p)[2:], w):
                for q, r in zip(x, y):
                    if not close_pt(q, r, 1e-9 * scale):
                        rec.fail("every curve", "%r: %r in the path, %r alone" % (case, x, y))
                        return
        # the same alone, first, last, and twice
        q, k = c0[1], c0[-1]
        for n, segs, i in (("alone", [mkseg(c0)], 0), ("first", [mkseg(c0), S.Line(k, (9, 9))], 0), ("last", [S.Move((0, 0)), S.Line((0, 0), q), mkseg(c0)], 2), ("second", [S.Move(q), mkseg(c0)], 1),
                           ("behind another", [mkseg(c0), S.Line(k, q), mkseg(c0)], 2)):
            for how, kind in (("cubics", "C"), ("quads", "Q")):
                p = S.Path(*segs)
                g = getattr(p, "approximate_arcs_with_" + how)
                g() if e is None else g(error=e)
                rec.step()
                rec.compared()
                want = []
                for j in range(len(segs)):
                    if obs.kind(segs[j]) == "A":
                        m = (len(p) - len(segs)) // sum(obs.kind(x) == "A" for x in segs) + 1
                        if m not in (math.ceil(ratio - 1e-9), math.ceil(ratio + 1e-9)):
                            return rec.fail("every number", "%r: %s of the arc %s" % (case, [obs.kind(x) for x in p], n))
                        want += list((arc.as_cubic_curves if kind == "C" else arc.as_quad_curves)(m))
                    else:
                        want.append(segs[j])
                if [obs.kind(x) for x in p] != [obs.kind(x) for x in want] or any(not close_pt(y, z, 1e-9 * max(1.0, abs(par[0]), abs(par[1]), par[2], par[3])) for a, b in zip(p, want) for y, z in zip(a, b) if y is not None):
                    return rec.fail("every place", "%r: the arc %s becomes %r, expected %r" % (case, n, list(p), want))
    ctx.explore("every-arc", every, every_case, bound="every 13th (thorough 5th) arc of both grids between lines in a path x 8 error settings")

    def paths():
        for d in range(1, ctx.pick(4, 5)):
            for b in itertools.product([p for p in PCS if p[0] in "LCAaZM"], repeat=d):
                if any(p[0] in "Aa" for p in b):
                    for how in ("cubics", "quads"):
                        for e in (None, 0.05):
                            yield (b, how, e)

    def pcase(case, rec):
        b, how, e = case
        cmds = (("M", ((1, 2),)),) + b
        refs = build_ref(cmds)
        p = S.Path(R.text(cmds))
        f = p.approximate_arcs_with_cubics if how == "cubics" else p.approximate_arcs_with_quads
        f() if e is None else f(e)
        rec.step()
        rec.state((obs.snap_path(p), how))
        rec.outcome(len(p))
        lim = R.TAU * (0.1 if e is None else e)
        i = 0
        bad = obs.linkage(p)
        if bad:
            rec.fail("linkage", "%r: %s" % (case, bad))
            return
        for r in refs:
            rec.compared()
            if r[0] != "A":
                if i >= len(p) or (obs.seg_diff(p[i], r) is not None):
                    rec.fail("other", "%r: segment %d is %r, expected %r" % (case, i, p[i] if i < len(p) else None, r))
                    return
                i += 1
                continue
            par = R.arc_center(*r[1:])
            if par is None:
                continue
            n = 1 if par == ("line",) else math.ceil(abs(par[-1]) / lim - 1e-9)
            k = "C" if how == "cubics" else "Q"
            part = list(p)[i:i + n]
            # half turns and other whole numbers of slices: one more for rounding
            if par != ("line",) and abs(abs(par[-1]) / lim - n) < 1e-6 and part and not close_pt(part[-1].end, r[-1]):
                n += 1
                part = list(p)[i:i + n]
            if len(part) != n or any(obs.kind(s) != k for s in part):
                rec.fail("number", "%r: arc replaced by %r, expected %d curves" % (case, part, n))
                return
            if not close_pt(part[0].start, r[1]) or not close_pt(part[-1].end, r[-1]):
                rec.fail("ends", "%r: arc replaced by curves from %s to %s" % (case, part[0].start, part[-1].end))
                return
            for j, s in enumerate(part):
                w = R.seg_point(r, (j + 0.5) / n)
                g = s.point(0.5)
                if max(abs(w[0] - g[0]), abs(w[1] - g[1])) > (0.05 if par == ("line",) else max(0.05, 0.015 * max(par[2:4]))):
                    rec.fail("middle", "%r: curve %d passes %s, the arc %s" % (case, j, tuple(map(float, g)), w))
                    return
            i += n
        if i != len(p):
            rec.fail("extra", "%r: %d segments, expected %d" % (case, len(p), i))
    ctx.explore("path-arcs-large", lambda: ((large.cmds(*c)[1:], how, e) for c in large.cases(ctx, 513, ("arcs", "mixed")) for how in ("cubics", "quads") for e in (None, 0.05)), pcase, timeout=60,
                bound="paths of up to %d arcs and around powers of two to 512, alone and among other segments" % (ctx.pick(20, 70) - 1))
    ctx.explore("path-arcs", paths, pcase, bound="all paths of up to %d pieces containing arcs, cubics and quads, two error settings" % ctx.pick(3, 4))
    ctx.assumptions = ["accuracy required: 2e-3 (s/90deg)^6 of the radius for a cubic over s degrees, 0.075 (s/90deg)^2 for a quadratic (1.5 times the error of the formula in use)"]
    asked.segments(ctx, "asked", [(n, lambda a, f=f: [asked.seg_points(c) for c in f(a)]) for n, f in
                                  (("cubics", lambda a: a.as_cubic_curves()), ("3 cubics", lambda a: a.as_cubic_curves(3)), ("quads", lambda a: a.as_quad_curves()), ("5 quads", lambda a: a.as_quad_curves(5)))], kinds="A", points=False)


# -- P19 -------------------------------------------------------------------------------
def P19(ctx):
    """The closest point of a line, against the exact projection; with and without numpy."""
    from fractions import Fraction as F
    from .paths import Without
    S = sp()
    n = ctx.pick(2, 3)
    grid = [(x, y) for x in range(-n, n + 1) for y in range(-n, n + 1)]
    ends = [(x, y) for x in range(-1, 3) for y in range(-2, 2)]
    far = [(100, -7), (0.25, 1.5), (-3.75, 1e-3)]

    def gen():
        for a in ends:
            for b in ends:
                for p in grid + far:
                    yield (a, b, p)

    def case_fn(case, rec):
        a, b, p = case
        ax, ay, bx, by, px, py = map(F, (*a, *b, *p))
        q = (bx - ax) ** 2 + (by - ay) ** 2
        rec.state(case)
        for kind in (S.Line, S.Close):
            for bounded in (None, True, False):
                t = F(0) if q == 0 else ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / q
                if bounded is not False:
                    t = min(max(t, F(0)), F(1))
                want = (float(ax + t * (bx - ax)), float(ay + t * (by - ay)))
                line = kind(a, b)
                rec.outcome((bounded, t < 0, t > 1, q == 0))
                for how, pp in (("tuple", p), ("Point", bs().Point(p))):
                    got = line.closest_segment_point(pp) if bounded is None else line.closest_segment_point(pp, bounded)
                    rec.step()
                    rec.compared()
                    if not close_pt(got, want, 1e-9):
                        rec.fail("closest:%s:%s" % (bounded, "point" if q == 0 else "line"), "%s%s: closest to %s (bounds %s) is %s, expected %s" % (
                            kind.__name__, (a, b), p, bounded, got, want))
                if (line.start.x, line.start.y, line.end.x, line.end.y) != a + b:
                    rec.fail("changed", "asking for the closest point changed %r" % line)
                got = line.closest_segment_point(p, bounded is not False)
                try:
                    got *= bs().Matrix("translate(3,4)")
                except TypeError:
                    pass
                if (line.start.x, line.start.y, line.end.x, line.end.y) != a + b:
                    rec.fail("shared", "the closest point of %r is one of its own points" % line)
    ctx.explore("closest", gen, case_fn, bound="16 x 16 lines (also of length zero) x %d points x bounded or not" % (len(grid) + len(far)))

    def fault(case, rec):
        with Without("numpy"):
            case_fn(case, rec)
    ctx.explore("closest without numpy", gen, fault, bound="the same, numpy missing")

    def scaled():
        for k in ctx.pick((-12, -9, -6, -4, -3, -2, 2, 4, 6, 9), range(-15, 13)):
            for a in ends[::5]:
                for b in ends:
                    for p in grid[::3] + far:
                        yield (k, a, b, p)

    def scaled_case(case, rec):
        """The same at other magnitudes, with a tolerance of the magnitude."""
        k, a, b, p = case
        u = 2.0 ** (k * 10 // 3)
        A, B, P = [(x * u, y * u) for x, y in (a, b, p)]
        ax, ay, bx, by, px, py = map(F, (*A, *B, *P))
        q = (bx - ax) ** 2 + (by - ay) ** 2
        rec.state(case)
        for bounded in (True, False):
            t = F(0) if q == 0 else ((px - ax) * (bx - ax) + (py - ay) * (by - ay)) / q
            rec.outcome((bounded, t < 0, t > 1, q == 0))
            if bounded:
                t = min(max(t, F(0)), F(1))
            want = (float(ax + t * (bx - ax)), float(ay + t * (by - ay)))
            got = S.Line(A, B).closest_segment_point(P, bounded)
            rec.step()
            rec.compared()
            tol = 1e-9 * u * max(1.0, abs(p[0]), abs(p[1])) * (1 if q == 0 else max(1.0, abs(float(t))))
            if not (abs(got[0] - want[0]) <= tol and abs(got[1] - want[1]) <= tol):
                rec.fail("scaled:%s" % bounded, "Line%s: closest to %s (bounds %s) is %s, expected %s" % ((A, B), P, bounded, (got[0], got[1]), want))
    ctx.explore("closest at other magnitudes", scaled, scaled_case, bound="lines of length %s" % ctx.pick("1e-12 to 1e9", "1e-15 to 1e12"))
    asked.segments(ctx, "asked", [("closest to %s %s" % (q, b), lambda s, q=q, b=b: s.closest_segment_point(q, b)) for q in ((3, 3), (-20, 4)) for b in (True, False)], kinds="LZ")


# -- P34 -------------------------------------------------------------------------------
def P34(ctx):
    """What an arc tells about its ellipse: radii, rotation, angles and parameters."""
    S, B = sp(), bs()
    tau = 2 * math.pi
    eps = (0.0, 1e-7, -1e-7)
    steps = ctx.pick(24, 48)

    def gen():
        for rx, ry in ((1, 1), (5, 3), (3, 5), (2.5, 2.5), (100, 1), (40, 60)):
            for rot in ctx.pick((0, 30, 90, 135, 180, -60), range(-360, 361, 15)):
                for c in ((0, 0), (1, -2)):
                    for t0 in ctx.pick((0, 0.25, 0.375, 0.5, 0.7, 0.75), (0, 0.1, 0.125, 0.25, 0.375, 0.5, 0.6, 0.7, 0.75, 0.875)):
                        for sw in (0.1, 0.25, 0.5, 0.9, -0.2, -0.5, -0.75):
                            yield (c, rx, ry, rot, t0, sw)

    def on(case, t):
        (cx, cy), rx, ry, rot, _, _ = case
        r = math.radians(rot)
        x, y = rx * math.cos(t), ry * math.sin(t)
        return (cx + x * math.cos(r) - y * math.sin(r), cy + x * math.sin(r) + y * math.cos(r))

    def turn(a, b):
        """Distance of two angles modulo a turn."""
        return abs((float(a) - float(b) + math.pi) % tau - math.pi)

    def case_fn(case, rec):
        (cx, cy), rx, ry, rot, t0, sw = case
        t0, sw, r = t0 * tau, sw * tau, math.radians(rot)
        start, end = on(case, t0), on(case, t0 + sw)
        arc = S.Arc(start=start, end=end, center=(cx, cy), prx=on(case, 0), pry=on(case, tau / 4), sweep=sw)
        size = max(rx, ry) + 3
        tol = 1e-9 * size * max(rx / ry, ry / rx)
        rec.state(case)
        snap = obs.snap(arc)

        def ok(what, good, msg):
            rec.compared()
            if not good:
                rec.fail(what, "%r: %s" % (case, msg))
        ok("rx", close(arc.rx, rx, 1e-9) and close(arc.ry, ry, 1e-9), "radii %r %r" % (arc.rx, arc.ry))
        ok("radius", close(arc.radius[0], rx, 1e-9) and close(arc.radius[1], ry, 1e-9), "radius %s" % arc.radius)
        ok("rotation", turn(arc.get_rotation(), r) < 1e-9, "rotation %r" % arc.get_rotation())
        if rx != ry or rx == 1 and rot == 0 and (cx, cy) == (0, 0):
            ok("circular", arc.is_circular() == (rx == ry), "is_circular %r" % arc.is_circular())
        ok("delta", abs(arc.delta - math.degrees(sw)) < 1e-9, "delta %r" % arc.delta)
        ok("theta", turn(math.radians(arc.theta), t0) < tol and 0 <= arc.theta < 360 + 1e-9, "theta %r" % arc.theta)
        ok("start_t", turn(arc.get_start_t(), t0) < tol, "start t %r" % arc.get_start_t())
        ok("end_t", turn(arc.get_end_t(), t0 + sw) < tol, "end t %r" % arc.get_end_t())
        for n, f, p in (("start", arc.get_start_angle, start), ("end", arc.get_end_angle, end)):
            ok(n + "_angle", turn(f(), math.atan2(p[1] - cy, p[0] - cx)) < tol, "%s angle %r" % (n, f()))
        for k in range(-steps, steps + 1):
            for e in eps:
                t = k * tau / steps + e
                p = arc.point_at_t(t)
                w = on(case, t)
                ok("point_at_t", close_pt(p, w, 1e-9 * size), "point_at_t(%r) = %s, expected %s" % (t, p, w))
                ok("t_at_point", turn(arc.t_at_point(B.Point(w)), t) < tol, "t_at_point of the point at %r is %r" % (t, arc.t_at_point(B.Point(w))))
                # the direction from the centre
                a = B.Angle.radians(t)
                q = arc.point_at_angle(a)
                u = (q[0] - cx) * math.cos(r) + (q[1] - cy) * math.sin(r), (q[1] - cy) * math.cos(r) - (q[0] - cx) * math.sin(r)
                ok("point_at_angle:on", abs((u[0] / rx) ** 2 + (u[1] / ry) ** 2 - 1) < 1e-8, "point_at_angle(%r) = %s is not on the ellipse" % (t, q))
                ok("point_at_angle", turn(math.atan2(q[1] - cy, q[0] - cx), t) < tol, "point_at_angle(%r) = %s lies in direction %r" % (t, q, math.atan2(q[1] - cy, q[0] - cx)))
                ok("angle_at_point", turn(arc.angle_at_point(q), t) < tol, "angle_at_point of the point at %r is %r" % (t, arc.angle_at_point(q)))
        rec.step(6 * steps)
        for x in (0, 0.2, 0.5, 1):
            ok("point", close_pt(arc.point(x), on(case, t0 + sw * x), tol), "point(%s) = %s" % (x, arc.point(x)))
        # the whole ellipse, as an element
        whole = [s for s in arc.get_ellipse().segments() if isinstance(s, S.Arc)]
        ok("get_ellipse:whole", close(abs(sum(s.sweep for s in whole)), tau, 1e-9) and len({s.sweep > 0 for s in whole}) == 1, "get_ellipse() turns by %r" % sum(s.sweep for s in whole))
        for s in whole:
            for x in (0, 0.2, 0.5, 0.9):
                q = s.point(x)
                u = (q[0] - cx) * math.cos(r) + (q[1] - cy) * math.sin(r), (q[1] - cy) * math.cos(r) - (q[0] - cx) * math.sin(r)
                ok("get_ellipse", abs((u[0] / rx) ** 2 + (u[1] / ry) ** 2 - 1) < 1e-8, "get_ellipse() draws %s, which is not on the ellipse" % q)
        if obs.snap(arc) != snap:
            rec.fail("changed", "%r: asking changed the arc" % (case,))
    def size_gen():
        for c in itertools.islice(gen(), 0, None, ctx.pick(19, 23)):
            for k in SIZES:
                yield (c, k)

    def size_case(case, rec):
        ((cx, cy), rx, ry, rot, t0, sw), k = case
        big = ((cx * k, cy * k), rx * k, ry * k, rot, t0 * tau, sw * tau)
        t0, sw = t0 * tau, sw * tau
        arc = S.Arc(start=on(big, t0), end=on(big, t0 + sw), center=big[0], prx=on(big, 0), pry=on(big, tau / 4), sweep=sw)
        tol = 1e-8 * (max(rx, ry) + 3) * max(rx / ry, ry / rx)
        rec.state(case)
        rec.outcome(k)
        rec.step(10)
        rec.compared(10)
        bad = []
        if abs(arc.rx / k - rx) > 1e-9 * rx or abs(arc.ry / k - ry) > 1e-9 * ry:
            bad.append("radii %r %r" % (arc.rx, arc.ry))
        if turn(arc.get_rotation(), math.radians(rot)) > 1e-9:
            bad.append("rotation %r" % arc.get_rotation())
        if turn(arc.get_start_t(), t0) > tol or turn(arc.get_end_t(), t0 + sw) > tol:
            bad.append("runs from t %r to %r" % (arc.get_start_t(), arc.get_end_t()))
        for n in range(-3, 12):
            t = n * tau / 8 + 0.1
            p, w = arc.point_at_t(t), on(big, t)
            if max(abs(p[0] - w[0]), abs(p[1] - w[1])) > 1e-9 * k * (max(rx, ry) + 3):
                bad.append("point_at_t(%r) = %s" % (t, p))
            if turn(arc.t_at_point(B.Point(w)), t) > tol:
                bad.append("t_at_point of the point at %r is %r" % (t, arc.t_at_point(B.Point(w))))
            q = arc.point_at_angle(B.Angle.radians(t))
            if turn(math.atan2(q[1] - big[0][1], q[0] - big[0][0]), t) > tol or turn(arc.angle_at_point(q), t) > tol:
                bad.append("point_at_angle(%r) = %s, angle_at_point there %r" % (t, q, arc.angle_at_point(q)))
        for s in arc.get_ellipse().segments():
            if isinstance(s, S.Arc):
                if abs(s.center[0] / k - cx) > 1e-9 * (max(rx, ry) + 3) or abs(s.center[1] / k - cy) > 1e-9 * (max(rx, ry) + 3) or {round(s.rx / k, 6), round(s.ry / k, 6)} != {round(float(rx), 6), round(float(ry), 6)}:
                    bad.append("get_ellipse() is about %s with radii %r %r" % (s.center, s.rx, s.ry))
        for x in (0, 0.2, 0.5, 1):
            p, w = arc.point(x), on(big, t0 + sw * x)
            if max(abs(p[0] - w[0]), abs(p[1] - w[1])) > tol * k:
                bad.append("point(%s) = %s" % (x, p))
        if bad:
            rec.fail("size", "%r: %s" % (case, bad))
    ctx.explore("sizes", size_gen, size_case, bound="every %s of these arcs at sizes of 2^-30 to 2^30" % ctx.pick("19th", "23rd"))
    ctx.explore("ellipse", gen, case_fn, bound="6 ellipses x rotations x 2 centres x starts x 7 sweeps; %d angles with offsets of 1e-7" % (2 * steps + 1))
    ctx.assumptions = ["angles modulo a turn, to 1e-9 of the ratio of the radii"]
    asked.segments(ctx, "asked", asked.attrs("rx", "ry", "theta", "delta", "sweep") + [(n, lambda a, n=n: float(getattr(a, n)())) for n in ("get_rotation", "get_start_angle", "get_end_angle", "get_start_t", "get_end_t")] +
                   [("circular", lambda a: a.is_circular()), ("radius", lambda a: a.radius() if callable(a.radius) else a.radius), ("point_at_t", lambda a: a.point_at_t(0.7)), ("point_at_angle", lambda a: a.point_at_angle(0.7)),
                    ("angle_at_point", lambda a: float(a.angle_at_point(a.start))), ("t_at_point", lambda a: float(a.t_at_point(a.end)))], kinds="A", points=False)
