"""Reference model of SVG path data, written from the SVG 1.1/2 text, independent of svgio.

Segments are tuples:
 ('M', start|None, end) ('L', s, e) ('Z', s, e) ('Q', s, c, e) ('C', s, c1, c2, e)
 ('A', s, rx, ry, rot_deg, large, sweep, e)
Points are (x, y).
"""
import math

ARGC = {"M": 2, "L": 2, "H": 1, "V": 1, "C": 6, "S": 4, "Q": 4, "T": 2, "A": 7, "Z": 0}
TAU = 2 * math.pi


class Machine:
    """The path interpreter of SVG 2, 9.3: state = current point, start of the current
    subpath, kind and control point of the previous segment."""

    def __init__(self):
        self.cur = None
        self.z = None
        self.prev = None  # (kind, last control)
        self.segs = []

    def clone(self):
        m = Machine()
        m.cur, m.z, m.prev, m.segs = self.cur, self.z, self.prev, list(self.segs)
        return m

    def canon(self):
        r = lambda p: None if p is None else (round(p[0], 9), round(p[1], 9))
        return (r(self.cur), r(self.z), None if self.prev is None else (self.prev[0], r(self.prev[1])))

    def group(self, letter, a):
        """One argument group. `a` holds floats; the final coordinate pair of a segment may
        be the string 'z' (SVG 2 segment-completing close path)."""
        rel = letter.islower()
        L = letter.upper()
        cur = self.cur
        ox, oy = cur if (rel and cur is not None) else (0.0, 0.0)

        def pt(i):
            if a[i] == "z":
                return self.z
            return (a[i] + ox, a[i + 1] + oy)
        if L == "M":
            e = pt(0)
            self.segs.append(("M", cur, e))
            self.z = e
            ctl = None
        elif L == "L":
            e = pt(0)
            self.segs.append(("L", cur, e))
            ctl = None
        elif L == "H":
            e = (a[0] + ox, cur[1])
            self.segs.append(("L", cur, e))
            ctl = None
        elif L == "V":
            e = (cur[0], a[0] + oy)
            self.segs.append(("L", cur, e))
            ctl = None
        elif L == "C":
            c1, c2, e = pt(0), pt(2), pt(4)
            self.segs.append(("C", cur, c1, c2, e))
            ctl = c2
        elif L == "S":
            c2, e = pt(0), pt(2)
            if self.prev and self.prev[0] == "C":
                p = self.prev[1]
                c1 = (2 * cur[0] - p[0], 2 * cur[1] - p[1])
            else:
                c1 = cur
            self.segs.append(("C", cur, c1, c2, e))
            ctl = c2
        elif L == "Q":
            c, e = pt(0), pt(2)
            self.segs.append(("Q", cur, c, e))
            ctl = c
        elif L == "T":
            e = pt(0)
            if self.prev and self.prev[0] == "Q":
                p = self.prev[1]
                c = (2 * cur[0] - p[0], 2 * cur[1] - p[1])
            else:
                c = cur
            self.segs.append(("Q", cur, c, e))
            ctl = c
        elif L == "A":
            e = pt(5)
            self.segs.append(("A", cur, a[0], a[1], a[2], bool(a[3]), bool(a[4]), e))
            ctl = None
        elif L == "Z":
            e = self.z
            self.segs.append(("Z", cur, e))
            ctl = None
        else:
            raise ValueError(letter)
        self.cur = e
        self.prev = (self.segs[-1][0], ctl)

    def command(self, letter, groups):
        """A command letter with one or more argument groups (implicit repetition)."""
        if letter in "zZ":
            self.group(letter, ())
            return
        for i, g in enumerate(groups):
            if i and letter == "m":
                self.group("l", g)
            elif i and letter == "M":
                self.group("L", g)
            else:
                self.group(letter, g)


def run(cmds):
    m = Machine()
    for letter, groups in cmds:
        m.command(letter, groups)
    return m


# -- arcs: SVG 1.1 F.6 / SVG 2 B.2 ---------------------------------------------------

def arc_center(s, rx, ry, rot, large, sweep, e):
    """Returns None if the arc is omitted (coincident endpoints), ('line',) if it is a line,
    else (cx, cy, rx, ry, phi, theta1, dtheta)."""
    if s[0] == e[0] and s[1] == e[1]:
        return None
    rx, ry = abs(rx), abs(ry)
    if rx == 0 or ry == 0:
        return ("line",)
    phi = math.radians(rot % 360.0)
    c, n = math.cos(phi), math.sin(phi)
    dx, dy = (s[0] - e[0]) / 2.0, (s[1] - e[1]) / 2.0
    x1 = c * dx + n * dy
    y1 = -n * dx + c * dy
    lam = (x1 / rx) ** 2 + (y1 / ry) ** 2
    if lam > 1:
        k = math.sqrt(lam)
        rx *= k
        ry *= k
        co = 0.0
    else:
        num = rx * rx * ry * ry - rx * rx * y1 * y1 - ry * ry * x1 * x1
        den = rx * rx * y1 * y1 + ry * ry * x1 * x1
        co = math.sqrt(max(0.0, num / den))
    if bool(large) == bool(sweep):
        co = -co
    cx1 = co * rx * y1 / ry
    cy1 = -co * ry * x1 / rx
    cx = c * cx1 - n * cy1 + (s[0] + e[0]) / 2.0
    cy = n * cx1 + c * cy1 + (s[1] + e[1]) / 2.0
    t1 = math.atan2((y1 - cy1) / ry, (x1 - cx1) / rx)
    t2 = math.atan2((-y1 - cy1) / ry, (-x1 - cx1) / rx)
    dt = t2 - t1
    if sweep:
        while dt < 0:
            dt += TAU
        while dt > TAU:
            dt -= TAU
    else:
        while dt > 0:
            dt -= TAU
        while dt < -TAU:
            dt += TAU
    return (cx, cy, rx, ry, phi, t1, dt)


def arc_params(seg):
    """Of an arc by its end points and flags ("A", ...) or by its parameters ("W", start, parameters, end)."""
    return seg[2] if seg[0] == "W" else arc_center(*seg[1:])


def arc_point(par, t):
    cx, cy, rx, ry, phi, t1, dt = par
    th = t1 + dt * t
    c, n = math.cos(phi), math.sin(phi)
    x, y = rx * math.cos(th), ry * math.sin(th)
    return (cx + c * x - n * y, cy + n * x + c * y)


def seg_point(seg, t):
    """Point at parameter t of a reference segment."""
    k = seg[0]
    if k == "M":
        return seg[-1]
    if k in "LZ":
        s, e = seg[1], seg[2]
        return (s[0] + (e[0] - s[0]) * t, s[1] + (e[1] - s[1]) * t)
    if k in "QC":
        pts = list(seg[1:])
        while len(pts) > 1:  # de Casteljau
            pts = [((1 - t) * p[0] + t * q[0], (1 - t) * p[1] + t * q[1]) for p, q in zip(pts, pts[1:])]
        return pts[0]
    par = arc_params(seg)
    if par is None:
        return seg[1]
    if par == ("line",):
        return seg_point(("L", seg[1], seg[-1]), t)
    if t == 0:
        return seg[1]
    if t == 1:
        return seg[-1]
    return arc_point(par, t)


def seg_deriv(seg, t):
    k = seg[0]
    if k == "M":
        return (0.0, 0.0)
    if k in "LZ":
        return (seg[2][0] - seg[1][0], seg[2][1] - seg[1][1])
    if k in "QC":
        pts = list(seg[1:])
        n = len(pts) - 1
        d = [(n * (q[0] - p[0]), n * (q[1] - p[1])) for p, q in zip(pts, pts[1:])]
        while len(d) > 1:
            d = [((1 - t) * p[0] + t * q[0], (1 - t) * p[1] + t * q[1]) for p, q in zip(d, d[1:])]
        return d[0]
    par = arc_params(seg)
    if par is None:
        return (0.0, 0.0)
    if par == ("line",):
        return (seg[-1][0] - seg[1][0], seg[-1][1] - seg[1][1])
    cx, cy, rx, ry, phi, t1, dt = par
    th = t1 + dt * t
    c, n = math.cos(phi), math.sin(phi)
    x, y = -rx * math.sin(th) * dt, ry * math.cos(th) * dt
    return (c * x - n * y, n * x + c * y)


# Gauss-Legendre 20 on panels split adaptively: reference arc length
import functools


@functools.lru_cache(None)
def _gl(n):
    # nodes/weights by Newton on Legendre polynomials (no numpy needed)
    xs, ws = [], []
    for i in range(1, n + 1):
        x = math.cos(math.pi * (i - 0.25) / (n + 0.5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for k in range(2, n + 1):
                p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-16:
                break
        xs.append(x)
        ws.append(2 / ((1 - x * x) * dp * dp))
    return xs, ws


def _panel(seg, a, b):
    xs, ws = _gl(16)
    h, m = (b - a) / 2, (a + b) / 2
    tot = 0.0
    for x, w in zip(xs, ws):
        d = seg_deriv(seg, m + h * x)
        tot += w * math.hypot(d[0], d[1])
    return tot * h


def seg_length(seg, tol=1e-9):
    k = seg[0]
    if k == "M":
        return 0.0
    if k in "LZ":
        return math.hypot(seg[2][0] - seg[1][0], seg[2][1] - seg[1][1])
    if k in "AW":
        par = arc_params(seg)
        if par is None:
            return 0.0
        if par == ("line",):
            return math.hypot(seg[-1][0] - seg[1][0], seg[-1][1] - seg[1][1])

    def rec(a, b, whole, depth):
        m = (a + b) / 2
        l, r = _panel(seg, a, m), _panel(seg, m, b)
        if depth > 40 or abs(l + r - whole) <= tol * max(1e-3, abs(whole)) * (b - a) + 1e-15:
            return l + r
        return rec(a, m, l, depth + 1) + rec(m, b, r, depth + 1)
    # A curve that nearly turns back has its corner where a coordinate stops: begin with panels that end there.
    cuts = [0.0, 1.0]
    if k == "Q":
        p0, p1, p2 = seg[1:4]
        ax, ay = p0[0] - 2 * p1[0] + p2[0], p0[1] - 2 * p1[1] + p2[1]
        for num_, den in ((p0[0] - p1[0], ax), (p0[1] - p1[1], ay), ((p0[0] - p1[0]) * ax + (p0[1] - p1[1]) * ay, ax * ax + ay * ay)):
            if den:
                cuts.append(num_ / den)
    elif k == "C":
        for i in (0, 1):
            p0, p1, p2, p3 = (seg[j][i] for j in (1, 2, 3, 4))
            cuts += _quad_roots(-p0 + 3 * p1 - 3 * p2 + p3, 2 * (p0 - 2 * p1 + p2), p1 - p0)
    cuts = sorted({t for t in cuts if 0 <= t <= 1})
    return sum(rec(a, b, _panel(seg, a, b), 0) for a, b in zip(cuts, cuts[1:]))


def seg_bbox(seg):
    """Exact bounding box from the roots of the derivative."""
    k = seg[0]
    s, e = seg[1], seg[-1]
    ts = [[0.0, 1.0], [0.0, 1.0]]
    if k == "Q":
        for i in (0, 1):
            a, b, c = seg[1][i], seg[2][i], seg[3][i]
            den = a - 2 * b + c
            if den:
                ts[i].append((a - b) / den)
    elif k == "C":
        for i in (0, 1):
            p0, p1, p2, p3 = (seg[j][i] for j in (1, 2, 3, 4))
            # derivative/3 = A t^2 + B t + C
            A = -p0 + 3 * p1 - 3 * p2 + p3
            B = 2 * (p0 - 2 * p1 + p2)
            C = p1 - p0
            ts[i] += _quad_roots(A, B, C)
    elif k in "AW":
        par = arc_params(seg)
        if par is not None and par != ("line",):
            cx, cy, rx, ry, phi, t1, dt = par
            c, n = math.cos(phi), math.sin(phi)
            for i, (u, v) in enumerate(((c * rx, -n * ry), (n * rx, c * ry))):
                base = math.atan2(v, u)
                for j in range(-6, 7):
                    ts[i].append((base + j * math.pi - t1) / dt)
    xs = [seg_point(seg, t)[0] for t in ts[0] if 0 <= t <= 1]
    ys = [seg_point(seg, t)[1] for t in ts[1] if 0 <= t <= 1]
    return min(xs), min(ys), max(xs), max(ys)


def _quad_roots(A, B, C):
    if abs(A) < 1e-14 * max(1.0, abs(B), abs(C)):
        return [-C / B] if B else []
    d = B * B - 4 * A * C
    if d < 0:
        return []
    q = -0.5 * (B + math.copysign(math.sqrt(d), B))
    out = [q / A]
    if q:
        out.append(C / q)
    return out


# -- serialisation of reference commands to text -------------------------------------

def num(v):
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return "1" if v else "0"
    if float(v) == int(v) and abs(v) < 1e15:
        return "%d" % v
    return repr(float(v))


def text(cmds, sep=" "):
    out = []
    for letter, groups in cmds:
        out.append(letter + sep.join(sep.join(num(v) for v in g) for g in groups))
    return sep.join(out) if sep == " " else "".join(out)
