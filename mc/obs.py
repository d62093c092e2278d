"""Observation of svgio paths through their public API, and comparison with the reference."""
from . import ref_path as R
from .core import close, close_pt


def kind(seg):
    import svgio.path as sp
    for k, c in (("M", sp.Move), ("Z", sp.Close), ("L", sp.Line), ("Q", sp.QuadraticBezier),
                 ("C", sp.CubicBezier), ("A", sp.Arc)):
        if isinstance(seg, c):
            return k
    return type(seg).__name__


def P(p):
    return None if p is None else (float(p.x), float(p.y))


def snap(seg):
    """Plain-data snapshot of one segment (all defining data)."""
    k = kind(seg)
    if k in "MLZ":
        return (k, P(seg.start), P(seg.end))
    if k == "Q":
        return (k, P(seg.start), P(seg.control), P(seg.end))
    if k == "C":
        return (k, P(seg.start), P(seg.control1), P(seg.control2), P(seg.end))
    if k == "A":
        return (k, P(seg.start), P(seg.end), P(seg.center), P(seg.prx), P(seg.pry), float(seg.sweep))
    return (k, repr(seg))


def snap_path(path):
    return [snap(s) for s in path]


def same_snap(a, b, tol=1e-9):
    if len(a) != len(b):
        return False
    for s, t in zip(a, b):
        if len(s) != len(t) or s[0] != t[0]:
            return False
        for u, v in zip(s[1:], t[1:]):
            if u is None or v is None:
                if u is not v:
                    return False
            elif isinstance(u, tuple):
                if not close_pt(u, v, tol):
                    return False
            elif not close(u, v, tol):
                return False
    return True


TS = (0.0, 0.25, 0.5, 0.75, 1.0)


def seg_diff(seg, ref, tol=1e-9, first=False, arc_ts=TS):
    """None if the svgio segment is the reference segment, else a description."""
    k = kind(seg)
    if k != ref[0]:
        return "kind %s, expected %s" % (k, ref[0])
    if k == "M":
        if not close_pt(P(seg.end), ref[2], tol):
            return "Move ends at %s, expected %s" % (P(seg.end), ref[2])
        if ref[1] is not None and not close_pt(P(seg.start), ref[1], tol):
            return "Move starts at %s, expected %s" % (P(seg.start), ref[1])
        return None
    got = snap(seg)
    if k != "A":
        for i, (g, w) in enumerate(zip(got[1:], ref[1:])):
            if not close_pt(g, w, tol):
                return "%s point %d is %s, expected %s" % (k, i, g, w)
        return None
    if not close_pt(got[1], ref[1], tol) or not close_pt(got[2], ref[-1], tol):
        return "A endpoints %s -> %s, expected %s -> %s" % (got[1], got[2], ref[1], ref[-1])
    scale = max(1.0, abs(ref[2]), abs(ref[3]))
    for t in arc_ts:
        g = seg.point(t)
        w = R.seg_point(ref, t)
        if not close_pt(g, w, max(tol, 1e-6)):
            return "A point(%s) is %s, expected %s" % (t, tuple(g), w)
    return None


def path_diff(path, refs, tol=1e-9):
    segs = list(path)
    if len(segs) != len(refs):
        return "%d segments %s, expected %d %s" % (
            len(segs), "".join(map(kind, segs)), len(refs), "".join(r[0] for r in refs))
    for i, (s, r) in enumerate(zip(segs, refs)):
        d = seg_diff(s, r, tol)
        if d:
            return "segment %d: %s" % (i, d)
    return None


def ref_of(seg):
    """Reference tuple of a svgio segment, read through its defining points."""
    k = kind(seg)
    if k in "MLZ":
        return (k, P(seg.start), P(seg.end))
    if k == "Q":
        return (k, P(seg.start), P(seg.control), P(seg.end))
    if k == "C":
        return (k, P(seg.start), P(seg.control1), P(seg.control2), P(seg.end))
    raise TypeError(k)


def linkage(path):
    """Invariant of a linked path: every segment starts where its predecessor ends and every
    close returns to the start of its subpath. None or a description."""
    segs = list(path)
    z = None
    prev = None
    for i, s in enumerate(segs):
        if z is None or kind(s) == "M":
            z = s.end
        if prev is not None:
            if s.start is None or prev.end is None:
                return "no link between %d and %d" % (i - 1, i)
            if not close_pt(s.start, prev.end, 1e-9):
                return "segment %d ends at %s but segment %d starts at %s" % (i - 1, P(prev.end), i, P(s.start))
        if kind(s) == "Z" and z is not None:
            if s.end is None or not close_pt(s.end, z, 1e-9):
                return "close %d returns to %s, subpath started at %s" % (i, P(s.end), P(z))
        prev = s
    return None


def shared_points(path):
    """Every segment owns its points: None, or a description of a shared point object."""
    seen = {}
    for i, s in enumerate(path):
        for j, p in enumerate((s.start, s.end) + ((s.control,) if kind(s) == "Q" else (s.control1, s.control2) if kind(s) == "C"
                              else (s.center, s.prx, s.pry) if kind(s) == "A" else ())):
            if p is None:
                continue
            if id(p) in seen:
                return "segments %d and %d share a point object" % (seen[id(p)], i)
            seen[id(p)] = i
    return None
