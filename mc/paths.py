"""Paths as mutable sequences of segments.

P05 edits = list edits + linking, P06 measures never stale, P07 reversal, P08 subpaths, P15 value semantics.
"""
import itertools
from copy import copy

from . import asked
from . import large
from . import obs
from . import ref_path as R
from .core import close, close_pt


def sp():
    import svgio.path as m
    return m


def bs():
    import svgio.basic as m
    return m


# ---------------------------------------------------------------------------------------
# segments by name; every call gives a new object
def seg(name):
    S = sp()
    return {
        "M": lambda: S.Move((9, 9)),
        "Ms": lambda: S.Move((3, 1), (6, 2)),
        "L": lambda: S.Line((7, 7), (8, 5)),
        "Ln": lambda: S.Line(None, (2, 8)),
        "Z": lambda: S.Close(),
        "Zp": lambda: S.Close((4, 4), (5, 5)),
        "Q": lambda: S.QuadraticBezier((0, 0), (1, 5), (6, 6)),
        "C": lambda: S.CubicBezier((0, 0), (1, 5), (2, 5), (3, 3)),
        "A": lambda: S.Arc((1, 1), 3, 2, 15, 0, 1, (4, 2)),
        "l0": lambda: S.Line((8, 5), (8, 5)),
    }[name]()


def fact(s):
    """Model data of a free segment: kind, start, inner points, end."""
    x = obs.snap(s)
    if x[0] == "A":
        return ["A", x[1], (), x[2]]
    return [x[0], x[1], tuple(x[2:-1]), x[-1]]


def relink(model):
    z = None
    prev = None
    for m in model:
        if z is None or m[0] == "M":
            z = m[3]
        if prev is not None:
            if prev[3] is None:
                prev[3] = m[1]
            else:
                m[1] = prev[3]
        if m[0] == "Z" and z is not None:
            m[3] = z
        prev = m


def clone(model):
    return [list(m) for m in model]


def facts(path):
    return [fact(s) for s in path]


def same_facts(a, b, tol=1e-9):
    if len(a) != len(b):
        return "%d segments, expected %d" % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0]:
            return "segment %d is %s, expected %s" % (i, x[0], y[0])
        if not close_pt(x[3], y[3], tol):
            return "segment %d (%s) ends at %s, expected %s" % (i, x[0], x[3], y[3])
        if not close_pt(x[1], y[1], tol):
            return "segment %d (%s) starts at %s, expected %s" % (i, x[0], x[1], y[1])
        if len(x[2]) != len(y[2]) or not all(close_pt(p, q, tol) for p, q in zip(x[2], y[2])):
            return "segment %d (%s) has inner points %s, expected %s" % (i, x[0], x[2], y[2])
    return None


class St:
    pass


def P05(ctx):
    """Sequence edits: explicit-state search over edit histories."""
    SEGS = ["M", "Ms", "L", "Ln", "Z", "Zp", "Q", "C", "A"]
    SMALL = ["M", "L", "Z", "C"]
    IDX = [0, 1, 2, 3, -1, -2, -3, 99, -99]
    ops = []
    for i in IDX:
        ops.append(("del", i))
        ops.append(("pop", i))
        for n in (SEGS if i in (0, 1, -1, -2) else SMALL):
            ops.append(("set", i, n))
            ops.append(("insert", i, n))
    for n in SEGS:
        ops.append(("append", n))
        ops.append(("iaddseg", n))
    for names in ((), ("L",), ("M", "L"), ("L", "Z"), ("Z", "Ln"), ("M", "C", "Z", "L")):
        ops.append(("extend", names))
    for t in ("L1,1", "M5,5 L6,6z", "z", "", "M1,2 Q3,4 5,6 L0,0 z L3,3"):
        ops.append(("appendtext", t))
        ops.append(("extendtext", t))
        ops.append(("iaddpath", t))
    for i in (0, 1, -1):
        ops.append(("settext", i, "L4,4"))
        ops.append(("settext", i, "M4,4"))
        ops.append(("inserttext", i, "L4,4"))
        ops.append(("settext", i, "L4,4 5,5"))  # refused
    sl = [(None, None, None), (0, 1, None), (1, 2, None), (1, 1, None), (1, 3, None), (-1, None, None), (0, 0, None), (2, 99, None),
          (None, None, 2), (None, None, -1), (3, 1, None), (-2, None, None)]
    for a in sl:
        ops.append(("delslice",) + a)
        for names in ((), ("L",), ("M", "Z"), ("C", "L", "L")):
            ops.append(("setslice",) + a + (names,))
        ops.append(("slicetext",) + a + ("L4,4 5,5",))
    ops += [("clear",), ("removelast",), ("extendself",)]
    roots = ["M1,1", "M1,2 L3,4 C1,1 2,2 5,5 Z", "M0,0 L4,0 4,4z M10,10 H15 V15 z", "M0,0 L1,0 Z L5,5 Q6,7 8,8 z M3,3",
             "M0,0 L1,0 2,2 M5,5 A2,3 10 0 1 8,8 Z Z", "L7,7 L8,1 z"]

    def build(root):
        st = St()
        st.p = sp().Path(root)
        st.m = facts(st.p)
        st.err = None
        return st

    def apply(st, op, rec):
        k = op[0]
        p, m = st.p, st.m
        new = None
        free = lambda names: ([seg(n) for n in names], [fact(seg(n)) for n in names])
        txt = lambda t: facts(sp().Path(t)) if t else []
        m2 = clone(m)
        want = None
        try:
            if k in ("del", "pop"):
                del m2[op[1]]
            elif k == "set":
                m2[op[1]] = fact(seg(op[2]))
            elif k == "insert":
                m2.insert(op[1], fact(seg(op[2])))
            elif k in ("append", "iaddseg"):
                m2.append(fact(seg(op[1])))
            elif k == "extend":
                m2.extend(free(op[1])[1])
            elif k in ("appendtext", "extendtext", "iaddpath"):
                m2.extend(txt(op[1]))
            elif k == "settext":
                if len(txt(op[2])) != 1:
                    raise ValueError
                m2[op[1]] = txt(op[2])[0]
            elif k == "inserttext":
                m2.insert(op[1], txt(op[2])[0])
            elif k == "delslice":
                del m2[slice(*op[1:4])]
            elif k == "setslice":
                m2[slice(*op[1:4])] = free(op[4])[1]
            elif k == "slicetext":
                m2[slice(*op[1:4])] = txt(op[4])
            elif k == "clear":
                del m2[:]
            elif k == "removelast":
                del m2[-1]
            elif k == "extendself":
                m2 = m2 + clone(m2)
            relink(m2)
        except (IndexError, ValueError) as e:
            want = type(e)
            m2 = m
        got = None
        try:
            if k == "del":
                del p[op[1]]
            elif k == "pop":
                before = p[op[1]]
                x = p.pop(op[1])
                if x is not before:
                    rec.fail("pop-returns", "pop(%r) returned another segment" % (op[1],))
            elif k == "set":
                p[op[1]] = seg(op[2])
            elif k == "insert":
                p.insert(op[1], seg(op[2]))
            elif k == "append":
                p.append(seg(op[1]))
            elif k == "iaddseg":
                p += seg(op[1])
            elif k == "extend":
                p.extend(free(op[1])[0])
            elif k == "appendtext":
                p.append(op[1])
            elif k == "extendtext":
                p.extend(op[1])
            elif k == "iaddpath":
                p += sp().Path(op[1])
            elif k == "settext":
                p[op[1]] = op[2]
            elif k == "inserttext":
                p.insert(op[1], op[2])
            elif k == "delslice":
                del p[slice(*op[1:4])]
            elif k == "setslice":
                p[slice(*op[1:4])] = free(op[4])[0]
            elif k == "slicetext":
                p[slice(*op[1:4])] = op[4]
            elif k == "clear":
                p.clear()
            elif k == "removelast":
                p.pop()
            elif k == "extendself":
                p.extend(p)
        except (IndexError, ValueError) as e:
            got = type(e)
        st.p = p
        st.m = m2
        st.err = (want, got)

    def enabled(st, op):
        # a path whose first segment is a bare close has no defined closing point, and keep the state space small
        return not (st.m and st.m[0][0] == "Z") and len(st.m) <= 9

    def canon(st):
        return [(x[0], x[1], x[2], x[3]) for x in st.m]

    def check(st, named, rec):
        if st.m and st.m[0][0] == "Z":
            rec.skip("path starting with a close")
            if [s[0] for s in st.m] != [obs.kind(s) for s in st.p]:
                rec.fail("kinds", "segment kinds %s" % [obs.kind(s) for s in st.p])
            return
        last = named[1][-1][0] if named[1] else "parse"
        if st.err and st.err[0] != st.err[1]:
            rec.fail("exception:" + last, "Path(%r) after %s: %s instead of %s" % (named[0], named[1], st.err[1], st.err[0]))
            return
        rec.compared(len(st.m))
        rec.outcome([x[0] for x in st.m])
        d = same_facts(facts(st.p), st.m)
        if d:
            rec.fail("edit:" + last, "Path(%r) after %s: %s" % (named[0], named[1], d))
            return
        bad = obs.linkage(st.p)
        if bad:
            rec.fail("linkage:" + last, "Path(%r) after %s: %s" % (named[0], named[1], bad))
        if len(set(map(id, st.p))) != len(st.p):
            rec.fail("shared:" + last, "the same segment object occurs twice")
        bad = obs.shared_points(st.p)
        if bad:
            rec.fail("shared-points:" + last, "Path(%r) after %s: %s" % (named[0], named[1], bad))
    ctx.bfs("edit-histories", roots, ops, build, apply, canon, check, depth=ctx.pick(2, 3), asked=ctx.pick("last", "all"), enabled=enabled,
            bound="%d start paths x all histories of up to %d of %d edits, equal states merged" % (len(roots), ctx.pick(2, 3), len(ops)))
    small = [o for o in ops if (o[0] in ("del", "set", "insert") and o[1] in (0, 1, -1) and (len(o) == 2 or o[2] in SMALL))
             or o in (("append", "L"), ("append", "Z"), ("append", "M"))]
    ctx.bfs("edit-histories-deep", roots[1:3], small, build, apply, canon, check, depth=ctx.pick(3, 4), asked=ctx.pick("last", "all"), enabled=enabled,
            bound="2 start paths x all histories of up to %d of %d single-item edits" % (ctx.pick(3, 4), len(small)))
    def many():
        for k, n in large.cases(ctx, 1025):
            text = R.text(large.cmds(k, n))
            m = n // 2
            for o in ([("del", i) for i in (0, 1, m, -1, -2)] + [("set", i, x) for i in (0, m, -1) for x in ("L", "M", "Z")] + [("insert", i, x) for i in (0, m, -1) for x in ("L", "M")] +
                      [("append", "L"), ("append", "Z"), ("iaddpath", "M5,5 L6,6z"), ("extendself",), ("delslice", 1, m, None), ("delslice", None, None, 2), ("delslice", -3, None, None),
                       ("setslice", 1, m, None, ("M", "C", "Z", "L")), ("setslice", m, m, None, ("C", "L")), ("pop", -1), ("pop", m)]):
                yield (text, o)

    def many_case(case, rec):
        st = build(case[0])
        if len(st.m) > 600 and case[1][0] == "extendself":
            return rec.skip("large enough")
        apply(st, case[1], rec)
        rec.step()
        rec.state((len(case[0]), case))
        check(st, (case[0], [case[1]]), rec)
    ctx.explore("large", many, many_case, timeout=60, bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 1024, one of 29 edits" % (ctx.pick(20, 70) - 1))
    ctx.assumptions = ["arcs are compared by kind and end points only: an edit may detach an arc from its ellipse",
                       "a path whose first segment is a close is not explored further"]
    asked.paths(ctx, "asked", [("segments", asked.path_points), ("len", len), ("slice", lambda p: asked.path_points(list(p[1:3]))), ("item", lambda p: asked.seg_points(p[-1])), ("index", lambda p: p.index(p[1])), ("in", lambda p: p[1] in p)])


# ---------------------------------------------------------------------------------------
def drawn(path):
    """The drawn pieces of a path: tuples (kind, start, inner.., end) with closes as lines,
    zero-length lines dropped."""
    out = []
    for s in path:
        x = obs.snap(s)
        if x[0] == "M":
            continue
        if x[0] in "LZ":
            if not close_pt(x[1], x[2], 1e-12):
                out.append(("L", x[1], x[2]))
        else:
            out.append(x)
    return out


def flip(x):
    if x[0] == "A":
        return ("A", x[2], x[1], x[3], x[4], x[5], -x[6])
    return (x[0],) + tuple(reversed(x[1:]))


def rotations_equal(a, b):
    if len(a) != len(b):
        return False
    if not a:
        return True
    return any(obs.same_snap(a, b[i:] + b[:i], 1e-9) for i in range(len(b)))


def split(path):
    """Independent partition: a new part at every Move."""
    parts = []
    for i, s in enumerate(path):
        if i == 0 or obs.kind(s) == "M":
            parts.append([])
        parts[-1].append(i)
    return parts


PIECES = ["L5,1", "l-2,3", "l0,0", "C1,5 4,6 8,2", "Q4,7 6,3", "A5,3 30 0 1 7,4", "a2,4 -20 1 0 3,2", "H1"]


# lines and curves between two points: pieces are often equal to each other or to each other's reverse
RETRACED = ["L1,1", "L5,1", "Q3,3 1,1", "Q3,3 5,1", "C1,4 5,4 5,1", "C5,4 1,4 1,1"]


def P07(ctx):
    S = sp()

    def bodies(n):
        for d in range(n + 1):
            yield from itertools.product(PIECES, repeat=d)

    def single():
        for b in bodies(ctx.pick(3, 5)):
            for z in ("", "z"):
                for m in ("M1,2", "M7,4"):
                    yield (m + "".join(b) + z,)

    sub = ["M1,2" + "".join(b) + z for b in bodies(2 if ctx.thorough else 1) for z in ("", "z")]
    sub += ["m2,1l1,1l0,3z", "M1,2L3,3C1,5 4,6 1,2z", "M4,4Q4,7 6,3L4,4"]

    def multi(n):
        def g():
            for parts in itertools.product(sub, repeat=n):
                yield (" ".join(parts),)
        return g

    def lens(p):
        return p.length(error=1e-9)

    def case_fn(case, rec):
        text = case[0]
        p = S.Path(text)
        ref = S.Path(text)
        rec.state(obs.snap_path(p))
        rec.outcome([obs.kind(s) for s in p])
        r = p.reverse()
        rec.step()
        if r is not p:
            rec.fail("returns", "Path(%r).reverse() does not return the path" % text)
        bad = obs.linkage(p)
        if bad:
            rec.fail("linkage", "Path(%r).reverse() = %r: %s" % (text, obs.snap_path(p), bad))
        a, b = split(ref), split(p)
        rec.compared(len(a))
        if len(a) != len(b):
            rec.fail("count", "Path(%r).reverse() has %d subpaths, not %d" % (text, len(b), len(a)))
            return
        for x, y in zip(a, reversed(b)):
            X, Y = [ref[i] for i in x], [p[i] for i in y]
            kx, ky = sorted(map(obs.kind, X)), sorted(map(obs.kind, Y))
            if kx != ky:
                rec.fail("kinds", "Path(%r).reverse(): subpath kinds %s became %s" % (text, kx, ky))
                continue
            want = [flip(s) for s in reversed(drawn(X))]
            got = drawn(Y)
            if obs.kind(X[-1]) == "Z":
                ok = rotations_equal(want, got)
            else:
                ok = obs.same_snap(want, got, 1e-9) and close_pt(Y[0].end, X[-1].end) and close_pt(Y[-1].end, X[0].end)
            if not ok:
                rec.fail("geometry", "Path(%r).reverse(): subpath draws %s, expected %s" % (text, got, want))
        p.reverse()
        rec.step()
        if not obs.same_snap([s for s in obs.snap_path(ref)], obs.snap_path(p), 1e-9):
            rec.fail("involution", "Path(%r) reversed twice is %r" % (text, obs.snap_path(p)))

    def measured(case, rec):
        """Same with a length query before, and lengths compared."""
        text = case[0]
        p = S.Path(text)
        l0 = lens(p)
        p.reverse()
        rec.step()
        rec.state(obs.snap_path(p))
        rec.outcome([obs.kind(s) for s in p])
        l1 = lens(p)
        rec.compared()
        if not close(l0, l1, 1e-6):
            rec.fail("length", "Path(%r) length %r becomes %r when reversed" % (text, l0, l1))
        if len(split(p)) == 1 and l0 > 0 and obs.kind(p[-1]) != "Z":
            q = S.Path(text)
            for t in (0.0, 0.2, 0.5, 0.8, 1.0):
                u, v = q.point(t, error=1e-9), p.point(1 - t, error=1e-9)
                rec.compared()
                if not close_pt(u, v, 1e-5):
                    rec.fail("points", "Path(%r).point(%s) = %s but reversed point(%s) = %s" % (text, t, tuple(u), 1 - t, tuple(v)))

    def sub_fn(case, rec):
        """Reversing one subpath touches nothing else."""
        text = case[0]
        n = len(split(S.Path(text)))
        for k in range(n):
            p = S.Path(text)
            s = p.subpath(k)
            r = s.reverse()
            rec.step()
            q = S.Path(text)
            rec.state((obs.snap_path(p), k))
            rec.outcome(n)
            bad = obs.linkage(p)
            if bad:
                rec.fail("sub-linkage", "Path(%r).subpath(%d).reverse(): %s" % (text, k, bad))
            a, b = split(q), split(p)
            if a != b:
                rec.fail("sub-partition", "Path(%r).subpath(%d).reverse() changed the partition" % (text, k))
                continue
            for j in range(n):
                X, Y = [q[i] for i in a[j]], [p[i] for i in b[j]]
                rec.compared()
                if j != k:
                    ok = obs.same_snap([obs.snap(x) for x in X if obs.kind(x) != "M"], [obs.snap(x) for x in Y if obs.kind(x) != "M"]) \
                        and close_pt(X[0].end, Y[0].end)
                    if not ok:
                        rec.fail("sub-other", "Path(%r).subpath(%d).reverse() changed subpath %d" % (text, k, j))
                    continue
                want, got = [flip(x) for x in reversed(drawn(X))], drawn(Y)
                ok = rotations_equal(want, got) if obs.kind(X[-1]) == "Z" else obs.same_snap(want, got)
                if not ok:
                    rec.fail("sub-geometry", "Path(%r).subpath(%d).reverse(): %s, expected %s" % (text, k, got, want))
            s.reverse()
            if not obs.same_snap(obs.snap_path(q), obs.snap_path(p)):
                rec.fail("sub-involution", "Path(%r).subpath(%d) reversed twice: %r" % (text, k, obs.snap_path(p)))

    ctx.explore("reverse-large", lambda: ((R.text(large.cmds(*c)),) for c in large.cases(ctx, 1025)), case_fn, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 1024" % (ctx.pick(20, 70) - 1))
    ctx.explore("reverse-subpath-large", lambda: ((R.text(large.cmds(*c)),) for c in large.cases(ctx, ctx.pick(20, 40), low=ctx.pick(12, 40))), sub_fn, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths, each subpath reversed" % (ctx.pick(12, 40) - 1))
    ctx.explore("reverse-single", single, case_fn, bound="one subpath of up to %d of %d pieces, open or closed" % (ctx.pick(3, 5), len(PIECES)))
    def logical(segs):
        """[(pieces, closed)]: what the subpaths draw, a new one at every move and after every close."""
        parts, new = [], True
        for x in segs:
            if obs.kind(x) == "M" or new:
                parts.append(([], False))
            parts[-1] = (parts[-1][0] + drawn([x]), obs.kind(x) == "Z")
            new = obs.kind(x) == "Z"
        return [q for q in parts if q[0] or q[1]]

    def turned(parts):
        return [([flip(x) for x in reversed(q)], z) for q, z in reversed(parts)]

    def same_parts(a, b):
        return len(a) == len(b) and all(z == w and (rotations_equal(q, r) if z else obs.same_snap(q, r, 1e-9)) for (q, z), (r, w) in zip(a, b))

    def gone_on():
        toks = ["L5,1", "l-2,3", "Q4,7 6,3", "a2,4 -20 1 0 3,2", "z", "M7,4"]
        for d in range(1, ctx.pick(5, 6) + 1):
            for b in itertools.product(toks, repeat=d):
                if "z" in b[:-1]:
                    yield ("M1,2" + "".join(b),)

    def gone_on_fn(case, rec):
        """Subpaths that go on after their close without a move."""
        text = case[0]
        ref = S.Path(text)
        a = logical(ref)
        n = len(split(ref))
        rec.state(case)
        rec.outcome((n, [(len(q), z) for q, z in a]))
        for k in range(-1, n):
            p = S.Path(text)
            s = p if k < 0 else p.subpath(k)
            want = turned(a) if k < 0 else [q for j, part in enumerate(split(ref)) for q in (turned if j == k else list)(logical([ref[i] for i in part]))]
            for i, w in ((1, want), (2, a)):
                s.reverse()
                rec.step()
                rec.compared(2)
                got = logical(p)
                how = "Path(%r)%s reversed %s" % (text, "" if k < 0 else ".subpath(%d)" % k, ("once", "twice")[i - 1])
                if not same_parts(w, got):
                    return rec.fail("after close", "%s draws %s, expected %s" % (how, got, w))
                bad = obs.linkage(p)
                if bad:
                    return rec.fail("after close linkage", "%s = %r: %s" % (how, obs.snap_path(p), bad))
                if not logical(S.Path(p.d())) or not same_parts(w, logical(S.Path(p.d()))):
                    return rec.fail("after close text", "%s is written %r" % (how, p.d()))
            if k >= 0 and not same_parts(logical([ref[i] for i in split(ref)[k]]), logical(s)):
                return rec.fail("after close window", "Path(%r).subpath(%d) reversed twice is %r" % (text, k, list(s)))
    ctx.explore("reverse-after-close", gone_on, gone_on_fn, bound="M + all sequences of up to %d of 6 pieces with a close before the last, as a path and each subpath" % ctx.pick(5, 6))

    def retrace():
        for d in range(ctx.pick(5, 6) + 1):
            for b in itertools.product(RETRACED, repeat=d):
                for z in ("", "z"):
                    yield ("M1,1" + "".join(b) + z,)
    ctx.explore("reverse-retraced", retrace, case_fn, bound="one subpath of up to %d of %d pieces between two points, open or closed" % (ctx.pick(5, 6), len(RETRACED)))
    ctx.explore("reverse-two", multi(2), case_fn, bound="all pairs of %d subpaths" % len(sub))
    if not ctx.thorough:
        ctx.explore("reverse-three", multi(3), case_fn, bound="all triples of %d subpaths" % len(sub))
    ctx.explore("reverse-measured", multi(2), measured, bound="all pairs of %d subpaths, measured before and after" % len(sub))
    ctx.explore("reverse-measured-single", single, measured, bound="one subpath, measured before and after")
    ctx.explore("reverse-subpath", multi(2) if ctx.thorough else multi(2), sub_fn, bound="all pairs of %d subpaths, each subpath reversed" % len(sub))

    def fragments():
        for b in bodies(ctx.pick(3, 4)):
            if b:
                for more in ((), ("M9,9L8,7",), ("M9,9C1,5 4,6 8,2L5,5z",), ("M9,9L8,7", "M0,1")):
                    if len(b) < ctx.pick(3, 4) or not more:
                        yield ("M1,2" + "".join(b), more)

    def fragment_fn(case, rec):
        """Segments that do not begin with a move."""
        text, more = case
        def make():
            return S.Path(*list(S.Path(text + "".join(more)))[1:])
        p, ref = make(), make()
        rec.state(obs.snap_path(p))
        rec.outcome([obs.kind(x) for x in p])
        for n in (1, 2):
            p.reverse()
            rec.step()
            rec.compared()
            if obs.linkage(p):
                return rec.fail("fragment linkage", "%s without its first move reversed %d times: %s" % (text + "".join(more), n, obs.linkage(p)))
            a, b = [[ref[i] for i in x] for x in split(ref)], [[p[i] for i in x] for x in split(p)]
            if n == 1:
                b.reverse()
            want = [drawn(x) if n == 2 else [flip(y) for y in reversed(drawn(x))] for x in a]
            got = [drawn(x) for x in b]
            if len(got) != len(want) or any(not (rotations_equal(w, g) if obs.kind(x[-1]) == "Z" else obs.same_snap(w, g, 1e-9)) for x, w, g in zip(a, want, got)):
                return rec.fail("fragment geometry", "%s without its first move reversed %d times draws %s, expected %s" % (text + "".join(more), n, got, want))
            if not more and len(p) != len(ref):
                return rec.fail("fragment segments", "%s without its first move reversed has %d segments" % (text, len(p)))
    ctx.explore("reverse-fragment", fragments, fragment_fn, bound="up to %d pieces without a move first, alone and before one or two subpaths" % ctx.pick(3, 4))

    def segs():
        for t in PIECES:
            for pos in (0.0, 0.1, 0.37, 0.5, 0.9, 1.0):
                yield (t, pos)

    def seg_fn(case, rec):
        t, pos = case
        s = S.Path("M1,2" + t)[1]
        a = s.point(pos)
        before = obs.snap(s)
        s.reverse()
        b = s.point(1 - pos)
        rec.state((t, pos))
        rec.step()
        rec.compared()
        rec.outcome(t)
        if not close_pt(a, b, 1e-9):
            rec.fail("segment", "%s reversed: point(%s) %s != %s" % (t, pos, tuple(a), tuple(b)))
        s.reverse()
        if not obs.same_snap([before], [obs.snap(s)], 0.0):
            rec.fail("segment-involution", "%s reversed twice differs" % t)
    ctx.explore("reverse-segment", segs, seg_fn, bound="every segment kind x positions")

    def turns():
        from math import pi
        for sweep in (2 * pi, pi, 1.5 * pi, 0.5 * pi, 0.01, 1.9999 * pi, 3 * pi, 4 * pi, 4.5 * pi):
            for sign in (1, -1):
                for start in ((3.0, 0.0), (0.0, 3.0), (-2.0, 2.5), (1.5, -4.0)):
                    for kind in range(4):
                        yield (sign * sweep, start, kind)

    def turn_fn(case, rec):
        """Arcs given by their sweep, also whole turns and more, alone and in a path."""
        from copy import copy
        sweep, start, kind = case
        mk = lambda: S.Arc(start=start, center=(0.5, -1), sweep=sweep)
        arc = mk()
        if kind & 2:
            arc *= bs().Matrix("rotate(20) scale(2,3)")
        fwd, rev = copy(arc), copy(arc)
        rec.state(case)
        rec.outcome((fwd.start == fwd.end, kind))
        if kind & 1:
            # moves are not drawn: as in the other explorations an arc in a path is compared as drawn
            p = S.Path(S.Move(None, rev.start), rev, S.Line(rev.end, (9, 9)))
            p.reverse()
            if obs.linkage(p):
                rec.fail("turn:linkage", "Path with %r reversed: %s" % (fwd, obs.linkage(p)))
            rev = [x for x in p if obs.kind(x) == "A"]
            if len(rev) != 1:
                rec.fail("turn:count", "Path with %r reversed: %r" % (fwd, obs.snap_path(p)))
                return
            rev = rev[0]
        else:
            rev.reverse()
        rec.step()
        big = max(1.0, fwd.rx, fwd.ry)
        for i in range(17):
            t = i / 16.0
            a, b = fwd.point(t), rev.point(1 - t)
            rec.compared()
            if not close_pt(a, b, 1e-9 * big * 10):
                rec.fail("turn", "%r reversed: point(%s) = %s but the original's point(%s) is %s" % (fwd, 1 - t, tuple(b), t, tuple(a)))
                break
        if abs(fwd.length() - rev.length()) > 1e-6 * big * 10:
            rec.fail("turn:length", "%r reversed has length %r, not %r" % (fwd, rev.length(), fwd.length()))
    ctx.explore("reverse-turns", turns, turn_fn, bound="arcs of 18 sweeps up to two and a quarter turns, alone, transformed and in a path")
    ctx.assumptions = ["every subpath begins with a move and is closed, if at all, at its end",
                       "a reversed closed outline may start at another of its corners"]
    def turned(p):
        q = copy(p)
        q.reverse()
        return asked.path_points(q)
    asked.paths(ctx, "asked", [("segments", asked.path_points), ("reversed copy", turned), ("length", lambda p: p.length())])
    asked.segments(ctx, "asked-segments", [("points", asked.seg_points), ("length", lambda s: s.length()), ("middle", lambda s: s.point(0.3))], points=False)


# ---------------------------------------------------------------------------------------
def union(boxes):
    boxes = list(boxes)
    if not boxes:
        return None
    return (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))


def P08(ctx):
    S = sp()
    alpha = ["M5,1", "L7,3", "C1,5 4,6 8,2", "z", "Q4,7 6,3", "A5,3 30 0 1 7,4", "m2,2"]

    def texts():
        for d in range(0, ctx.pick(5, 6)):
            for b in itertools.product(alpha, repeat=d):
                yield ("M1,2" + "".join(b),)
        yield ("L3,3 L4,4 M1,1 z",)
        yield ("L3,3M4,4L5,5",)

    def static(case, rec):
        text = case[0]
        p = S.Path(text)
        parts = split(p)
        subs = list(p.as_subpaths())
        rec.state(obs.snap_path(p))
        rec.outcome([len(x) for x in parts])
        rec.compared(len(parts))
        if len(subs) != len(parts) or p.count_subpaths() != len(parts):
            rec.fail("count", "Path(%r): %d subpaths, count_subpaths() %d, expected %d" % (text, len(subs), p.count_subpaths(), len(parts)))
            return
        for k, (sub, part) in enumerate(zip(subs, parts)):
            want = [p[i] for i in part]
            rec.step()
            got = list(sub)
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                rec.fail("content", "Path(%r): subpath %d iterates %r, expected %r" % (text, k, got, want))
                continue
            it = iter(sub)
            first = next(it)
            if first is not want[0] or [id(x) for x in sub] != [id(x) for x in want] or [id(x) for x in it] != [id(x) for x in want[1:]]:
                rec.fail("iterators", "Path(%r): two iterations over subpath %d disturb each other" % (text, k))
            if any(a is not b for a, b in zip(p.subpath(k), want)) or len(sub) != len(want):
                rec.fail("subpath()", "Path(%r).subpath(%d)" % (text, k))
            if [id(x) for x in sub.segments()] != [id(x) for x in want]:
                rec.fail("segments()", "Path(%r).subpath(%d).segments()" % (text, k))
            n = len(want)
            for i in range(-n - 2, n + 3):
                try:
                    w = want[i]
                except IndexError:
                    w = None
                try:
                    g = sub[i]
                except IndexError:
                    g = None
                rec.compared()
                if g is not w:
                    rec.fail("index", "Path(%r).subpath(%d)[%d] is %r, expected %r" % (text, k, i, g, w))
            vals = [None, 0, 1, 2, -1, -2, n, n + 1, -n - 1]
            for a, b in itertools.product(vals, repeat=2):
                for c in (None, 1, 2, -1):
                    g = list(sub[slice(a, b, c)])
                    w = want[slice(a, b, c)]
                    if len(g) != len(w) or any(x is not y for x, y in zip(g, w)):
                        rec.fail("slice", "Path(%r).subpath(%d)[%s:%s:%s] is %r, expected %r" % (text, k, a, b, c, g, w))
            rec.compared(len(vals) ** 2 * 4)
            own = S.Path(sub)
            if not obs.same_snap(obs.snap_path(own), [obs.snap(x) for x in want], 0.0) or any(x is y for x, y in zip(own, want)):
                rec.fail("Path(sub)", "Path(Path(%r).subpath(%d)) is %r" % (text, k, own))
            if not (sub == own) or (sub != own) or not (own == sub):
                rec.fail("equal", "Path(%r).subpath(%d) is not equal to its own copy" % (text, k))
            if "M" == obs.kind(want[0]):
                for rel, sm in itertools.product((None, True, False), repeat=2):
                    d = sub.d(relative=rel, smooth=sm)
                    q = S.Path(d)
                    if not all(x is None or close_pt(x, y, 1e-8) for s, t in zip(want, q) for x, y in
                               [(s.end, t.end)] + ([] if obs.kind(s) == "M" else [(s.start, t.start)])) or \
                            [obs.kind(x) for x in q] != [obs.kind(x) for x in want]:
                        rec.fail("d", "Path(%r).subpath(%d).d(relative=%s, smooth=%s) = %r" % (text, k, rel, sm, d))
                if str(sub) != sub.d():
                    rec.fail("str", "Path(%r).subpath(%d): str is %r" % (text, k, str(sub)))
            bb = sub.bbox()
            w = union(x.bbox() for x in want if obs.kind(x) != "M")
            if (bb is None) != (w is None) or (bb is not None and not all(close(x, y) for x, y in zip(bb, w))):
                rec.fail("bbox", "Path(%r).subpath(%d).bbox() is %s, expected %s" % (text, k, bb, w))
    ctx.explore("windows", texts, static, bound="all paths of up to %d of %d commands; every index and slice of every subpath" % (ctx.pick(4, 5), len(alpha)))

    def many():
        for k, n in large.cases(ctx, 1025):
            yield (k, n)

    def many_case(case, rec):
        text = R.text(large.cmds(*case))
        p = S.Path(text)
        parts = split(p)
        subs = list(p.as_subpaths())
        rec.state(case)
        rec.outcome(case[0])
        rec.compared(len(parts))
        if len(subs) != len(parts) or p.count_subpaths() != len(parts):
            return rec.fail("large count", "%s %d: %d subpaths, count_subpaths() %d, expected %d" % (case + (len(subs), p.count_subpaths(), len(parts))))
        n = len(parts)
        for k in range(n) if n < 40 else sorted({0, 1, n // 2, 99, 127, 128, n - 2, n - 1} & set(range(n))):
            want = [p[i] for i in parts[k]]
            m = len(want)
            for how, sub in (("as_subpaths", subs[k]), ("subpath", p.subpath(k)), ("negative", p.subpath(k - n))):
                rec.step()
                rec.compared(3)
                if len(sub) != m or [id(x) for x in sub] != [id(x) for x in want]:
                    return rec.fail("large content:" + how, "%s %d: subpath %d holds %d segments, expected %d" % (case + (k, len(sub), m)))
                for i in (0, m // 2, m - 1, -1, -m):
                    if sub[i] is not want[i]:
                        return rec.fail("large index:" + how, "%s %d: subpath %d [%d] is %r" % (case + (k, i, sub[i])))
                if [id(x) for x in sub[m // 2:]] != [id(x) for x in want[m // 2:]]:
                    return rec.fail("large slice:" + how, "%s %d: subpath %d [%d:]" % (case + (k, m // 2)))
        # a write through the middle one and the last
        for k in sorted({n // 2, n - 1}):
            q = S.Path(text)
            w = facts(q)
            part = parts[k]
            s = q.subpath(k)
            s[-1] = S.Line((0, 0), (77, 78))
            w[part[-1]] = fact(S.Line((0, 0), (77, 78)))
            relink(w)
            d = same_facts(facts(q), w)
            if d:
                rec.fail("large write", "%s %d: written through subpath %d: %s" % (case + (k, d)))
    ctx.explore("large", many, many_case, timeout=60, bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 1024" % (ctx.pick(20, 70) - 1))

    # writes through one subpath object
    SEG = ["L", "Ln", "Q", "Z", "M", "C"]
    ops = []
    for i in (0, 1, 2, -1, -2, 9, -9):
        ops.append(("del", i))
        for n in SEG:
            ops.append(("set", i, n))
    for a in [(None, None), (0, 1), (1, 2), (1, 1), (-1, None), (1, None), (2, 99), (0, 0), (-99, 1)]:
        ops.append(("delslice",) + a)
        for names in ((), ("L",), ("L", "Q", "L")):
            ops.append(("setslice",) + a + (names,))
    for n in SEG:
        ops.append(("iaddseg", n))
    for t in ("L1,1", "L6,6z", "", "z", "Q3,4 5,6 L0,0"):
        ops.append(("iaddtext", t))
        ops.append(("iaddpath", t))
    for m in ("scale(2)", "translate(3,-1)", "rotate(90)"):
        ops.append(("imul", m))
    ops.append(("setslicetext", 1, 2, "L4,4 5,5"))
    paths = ["M1,1L2,3", "M0,0L4,0z M5,5L6,8L1,1z", "M0,0L1,0L1,1M3,3C4,4 5,5 6,1M7,7Q8,8 9,1z", "M0,0M1,1M2,2",
             "M0,0L1,0ZL2,2M3,3A5,3 30 0 1 7,4zz", "L3,3L4,1M5,5L6,6z"]
    roots = [(t, k) for t in paths for k in range(len(split(S.Path(t))))]

    def build(root):
        st = St()
        st.p = S.Path(root[0])
        st.sub = st.p.subpath(root[1])
        part = split(st.p)[root[1]]
        st.a, st.b = part[0], part[-1] + 1
        st.m = facts(st.p)
        st.err = None
        return st

    def mat(m):
        return {"scale(2)": lambda p: (2 * p[0], 2 * p[1]), "translate(3,-1)": lambda p: (p[0] + 3, p[1] - 1),
                "rotate(90)": lambda p: (-p[1], p[0])}[m]

    def apply(st, op, rec):
        k = op[0]
        win = clone(st.m[st.a:st.b])
        want = got = None
        txt = lambda t: facts(S.Path(t)) if t else []
        try:
            if k == "del":
                del win[op[1]]
            elif k == "set":
                win[op[1]] = fact(seg(op[2]))
            elif k == "delslice":
                del win[op[1]:op[2]]
            elif k == "setslice":
                win[op[1]:op[2]] = [fact(seg(n)) for n in op[3]]
            elif k == "setslicetext":
                win[op[1]:op[2]] = txt(op[3])
            elif k == "iaddseg":
                win.append(fact(seg(op[1])))
            elif k in ("iaddtext", "iaddpath"):
                win += txt(op[1])
            elif k == "imul":
                f = mat(op[1])
                for x in win:
                    x[1] = x[1] and f(x[1])
                    x[2] = tuple(f(q) for q in x[2])
                    x[3] = x[3] and f(x[3])
        except IndexError:
            want = IndexError
        if want is None:
            m2 = clone(st.m)
            m2[st.a:st.b] = win
            st.b = st.a + len(win)
            relink(m2)
            st.m = m2
        sub = st.sub
        try:
            if k == "del":
                del sub[op[1]]
            elif k == "set":
                sub[op[1]] = seg(op[2])
            elif k == "delslice":
                del sub[op[1]:op[2]]
            elif k == "setslice":
                sub[op[1]:op[2]] = [seg(n) for n in op[3]]
            elif k == "setslicetext":
                sub[op[1]:op[2]] = op[3]
            elif k == "iaddseg":
                sub += seg(op[1])
            elif k == "iaddtext":
                sub += op[1]
            elif k == "iaddpath":
                sub += S.Path(op[1])
            elif k == "imul":
                sub *= op[1]
        except IndexError:
            got = IndexError
        if sub is not st.sub:
            rec.fail("inplace:" + k, "in-place %r replaced the subpath object" % (op,))
        st.err = (want, got)

    def enabled(st, op):
        return not (st.m and st.m[0][0] == "Z") and not (op[0] == "imul" and any(x[0] == "A" for x in st.m[st.a:st.b]) and op[1] == "x")

    def canon(st):
        return (st.m, st.a, st.b)

    def check(st, named, rec):
        if st.m and st.m[0][0] == "Z":
            rec.skip("path starting with a close")
            return
        last = named[1][-1][0] if named[1] else "start"
        if st.err and st.err[0] != st.err[1]:
            rec.fail("exception:" + last, "subpath %r after %s: raised %s, expected %s" % (named[0], named[1], st.err[1], st.err[0]))
            return
        rec.compared(len(st.m))
        rec.outcome((st.a, st.b, len(st.m)))
        d = same_facts(facts(st.p), st.m)
        if d:
            rec.fail("write:" + last, "subpath %r after %s: path %s" % (named[0], named[1], d))
            return
        if len(st.sub) != st.b - st.a:
            rec.fail("window:" + last, "subpath %r after %s: len %d, expected %d" % (named[0], named[1], len(st.sub), st.b - st.a))
            return
        d = same_facts(facts(st.sub), st.m[st.a:st.b])
        if d:
            rec.fail("window:" + last, "subpath %r after %s: window %s" % (named[0], named[1], d))
    ctx.bfs("writes", roots, ops, build, apply, canon, check, depth=ctx.pick(2, 3), enabled=enabled,
            bound="%d subpaths x all histories of up to %d of %d writes through one subpath object" % (len(roots), ctx.pick(2, 3), len(ops)))
    ctx.assumptions = ["one subpath object writes at a time (the library documents other subpath objects as undefined after a write)"]
    asked.paths(ctx, "asked", [("count", lambda p: p.count_subpaths()), ("subpaths", lambda p: [asked.path_points(s) for s in p.as_subpaths()]), ("boxes", lambda p: [s.bbox() for s in p.as_subpaths()]),
                               ("d", lambda p: [s.d() for s in p.as_subpaths()]), ("lengths", lambda p: [len(s) for s in p.as_subpaths()]), ("last", lambda p: asked.seg_points(p.subpath(p.count_subpaths() - 1)[-1]))])


# ---------------------------------------------------------------------------------------
def apply_edit(p, op):
    """Edit operations that keep the path object; used by P06 and P15."""
    S = sp()
    k = op[0]
    if k == "del":
        del p[op[1]]
    elif k == "set":
        p[op[1]] = seg(op[2])
    elif k == "insert":
        p.insert(op[1], seg(op[2]))
    elif k == "append":
        p.append(seg(op[1]))
    elif k == "appendtext":
        p.append(op[1])
    elif k == "extend":
        p.extend([seg(n) for n in op[1]])
    elif k == "setslice":
        p[op[1]:op[2]] = [seg(n) for n in op[3]]
    elif k == "delslice":
        del p[op[1]:op[2]]
    elif k == "iadd":
        p += op[1]
    elif k == "iaddpath":
        p += S.Path(op[1])
    elif k == "iaddseg":
        p += seg(op[1])
    elif k == "parse":
        p.parse(op[1])
    elif k == "call":
        getattr(p, op[1])(*op[2])
    elif k == "imul":
        p *= op[1]
    elif k == "imulM":
        p *= bs().Matrix(op[1])
    elif k == "imatmul":
        p @= op[1]
    elif k == "reverse":
        p.reverse()
    elif k == "subreverse":
        p.subpath(op[1]).reverse()
    elif k == "subimul":
        s = p.subpath(op[1])
        s *= op[2]
    elif k == "subset":
        p.subpath(op[1])[op[2]] = seg(op[3])
    elif k == "subdel":
        del p.subpath(op[1])[op[2]]
    elif k == "subiadd":
        s = p.subpath(op[1])
        s += op[2]
    elif k == "pop":
        p.pop(op[1])
    elif k == "segimul":
        p[op[1]] *= op[2]
    else:
        raise KeyError(k)


def P06(ctx):
    S = sp()
    ops = [("del", 1), ("del", -1), ("pop", 2), ("set", 1, "L"), ("set", -1, "C"), ("insert", 1, "Q"), ("insert", 99, "L"), ("append", "L"),
           ("append", "Z"), ("appendtext", "L9,9 Q1,1 3,7"), ("extend", ("M", "L")), ("setslice", 1, 2, ("C", "L")), ("setslice", 1, 3, ("L", "L")),
           ("delslice", 1, 2), ("iadd", "l7,7"), ("iaddpath", "M7,7 L9,3"), ("iaddseg", "L"), ("parse", "h20 v3"),
           ("call", "line", ((20, 0),)), ("call", "closed", ()), ("call", "cubic", ((1, 9), (8, 8), (12, 1))), ("call", "move", ((3, 3),)),
           ("imul", "scale(3,1)"), ("imulM", "scale(1,5)"), ("imatmul", "scale(2)"), ("imul", "rotate(30) scale(1,2)"), ("reverse",),
           ("subreverse", 0), ("subimul", 0, "scale(4)"), ("subimul", -1, "scale(1,3)"), ("subset", 0, 1, "Q"), ("subdel", 0, 1),
           ("subiadd", 0, "L0,9"), ("call", "approximate_arcs_with_cubics", ()), ("call", "approximate_arcs_with_quads", ()),
           ("call", "direct_close", ()), ("segimul", 1, "scale(2)"), ("call", "validate_connections", ())]
    roots = ["M0,0 L4,0 L4,7", "M0,0 L10,0 4,4z M1,1 Q5,9 9,1", "M0,0 A5,3 30 0 1 7,4 L1,1 z", "M0,0 h3 h5 v1", "", "M1,1", "M2,2 z M2,2 L2,2"]
    measures = [("none",), ("length",), ("point",), ("npoint",)]

    def measure(p, m):
        if m == "length":
            return p.length(error=1e-6)
        if m == "point":
            return p.point(0.3, error=1e-6)
        if m == "npoint":
            return p.npoint([0.2, 0.9], error=1e-6)

    def gen(depth, ms):
        def g():
            for r in roots:
                for d in range(1, depth + 1):
                    for seq in itertools.product(range(len(ops)), repeat=d):
                        for mm in itertools.product(ms, repeat=d):
                            yield (r, tuple(zip(mm, seq)))
        return g

    def case_fn(case, rec):
        root, hist = case
        p = S.Path(root)
        done = []
        for m, oi in hist:
            m = m[0]
            done.append((m, ops[oi]))
            if m != "none":
                try:
                    measure(p, m)
                except Exception:
                    if len(p) and obs.kind(p[0]) != "M":
                        rec.skip("fragment")
                        return
                    rec.fail("measure", "Path(%r) history %s: %s failed" % (root, done, m))
                    return
            try:
                apply_edit(p, ops[oi])
            except (IndexError, ValueError):
                rec.skip("edit not applicable")
                return
            except Exception:
                if len(p) and obs.kind(p[0]) == "M":
                    raise
                rec.skip("fragment")
                return
            rec.step(2)
        if len(p) == 0 or obs.kind(p[0]) != "M":
            rec.skip("fragment")
            return
        rec.state((obs.snap_path(p), [m for m, _ in hist]))
        last = done[-1][1][0]
        fresh = S.Path([copy(s) for s in p])
        rec.outcome([obs.kind(s) for s in p])
        a, b = p.length(error=1e-6), fresh.length(error=1e-6)
        rec.compared(6)
        if not close(a, b, 1e-6):
            rec.fail("length:" + last, "Path(%r) after %s has length %r, an equal new path %r" % (root, done, a, b))
            return
        pos = [0.0, 0.1, 0.45, 0.8, 1.0]
        for t in pos:
            u, v = p.point(t, error=1e-6), fresh.point(t, error=1e-6)
            if not close_pt(u, v, 1e-6):
                rec.fail("point:" + last, "Path(%r) after %s has point(%s) = %s, an equal new path %s" % (root, done, t, tuple(u), tuple(v)))
                return
        U, V = p.npoint(pos, error=1e-6), fresh.npoint(pos, error=1e-6)
        for t, u, v in zip(pos, U, V):
            if not close_pt(u, v, 1e-6):
                rec.fail("npoint:" + last, "Path(%r) after %s: npoint at %s = %s, an equal new path %s" % (root, done, t, tuple(u), tuple(v)))
                return
    ctx.explore("measured-edits", gen(2, measures), case_fn, bound="%d paths x all histories of up to 2 of %d edits, any of 4 measurements before each" % (
        len(roots), len(ops)))
    if ctx.thorough:
        ctx.explore("measured-edits-deep", gen(3, measures[:2]), case_fn,
                    bound="%d paths x all histories of up to 3 of %d edits, with or without a length query before each" % (len(roots), len(ops)))
    ctx.assumptions = ["lengths are asked with one error tolerance; segments are edited through the path or its subpaths, not by writing their points"]
    asked.paths(ctx, "asked", [("length", lambda p: p.length()), ("point", lambda p: p.point(0.6)), ("npoint", lambda p: [tuple(q) for q in p.npoint([0.2, 0.9])])])


def P15(ctx):
    S = sp()
    B = bs()
    texts = ["M1,1 L2,3 z M5,5 Q1,2 3,4", "M0,0 A5,3 30 0 1 7,4 C1,1 2,2 4,4 z", "M1,1"]

    def bump(seg_):
        for nm in ("start", "end", "control", "control1", "control2", "center", "prx", "pry"):
            q = getattr(seg_, nm, None)
            if q is not None:
                q.x += 1
    ops = [("imul", "scale(2)"), ("imul", "rotate(90)"), ("iadd", "L9,9"), ("iaddseg", "C"), ("iaddpath", "M7,7 L9,3"), ("reverse",),
           ("set", -1, "L"), ("del", -1), ("insert", 1, "Q"), ("subimul", 0, "translate(3,4)"), ("subreverse", 0), ("bump",),
           ("call", "line", ((20, 0),)), ("call", "closed", ()), ("call", "approximate_arcs_with_cubics", ()), ("bumplast",), ("segimul", -1, "scale(2)")]

    def do(p, op):
        if op[0] == "bump":
            for s in p:
                bump(s)
        elif op[0] == "bumplast":
            bump(p[len(p) - 1])
        else:
            apply_edit(p, op)
    derive = {
        "copy(a)": lambda a: copy(a), "Path(a)": lambda a: S.Path(a), "a * identity": lambda a: a * "scale(1)",
        "a * Matrix()": lambda a: a * B.Matrix(), "a @ identity": lambda a: a @ "scale(1)", "a + ''": lambda a: a + "",
        "a + Path()": lambda a: a + S.Path(), "'' + a": lambda a: "" + a, "Path() + a": lambda a: S.Path() + a,
        "Path(list of copies)": lambda a: S.Path([copy(s) for s in a]),
        "copy(copy(a))": lambda a: copy(copy(a)),
    }

    def gen():
        for t in texts:
            for how in derive:
                for d in range(0, ctx.pick(2, 3) + 1):
                    for h in itertools.product(range(2 * len(ops)), repeat=d):
                        yield (t, how, h)

    def case_fn(case, rec):
        t, how, h = case
        a = S.Path(t)
        start = obs.snap_path(a)
        b = derive[how](a)
        if not obs.same_snap(start, obs.snap_path(b), 1e-12):
            rec.fail("derive:" + how, "%s of Path(%r) is %r" % (how, t, obs.snap_path(b)))
            return
        if not obs.same_snap(start, obs.snap_path(a), 0.0):
            rec.fail("operand:" + how, "%s changed a = Path(%r) into %r" % (how, t, obs.snap_path(a)))
            return
        if not (a == b and b == a and not (a != b)):
            rec.fail("equal:" + how, "%s of Path(%r) is not equal to it" % (how, t))
        alone = [S.Path(t), S.Path(t)]
        pair = [a, b]
        for x in h:
            who, op = x % 2, ops[x // 2]
            try:
                do(alone[who], op)
            except (IndexError, ValueError, TypeError):
                rec.skip("edit not applicable")
                return
            do(pair[who], op)
            rec.step(2)
        rec.state((obs.snap_path(a), obs.snap_path(b)))
        rec.outcome((how, len(a), len(b)))
        for who in (0, 1):
            rec.compared()
            if not obs.same_snap(obs.snap_path(alone[who]), obs.snap_path(pair[who]), 1e-9):
                rec.fail("interference:" + how, "b = %s, a = Path(%r); after %s %s is %r, expected %r" % (
                    how, t, [("ab"[x % 2], ops[x // 2]) for x in h], "ab"[who], obs.snap_path(pair[who]), obs.snap_path(alone[who])))
    ctx.explore("independent-copies", gen, case_fn,
                bound="%d paths x %d ways to derive a path x all interleavings of up to %d of %d edits on original and copy" % (
                    len(texts), len(derive), ctx.pick(2, 3), len(ops)))

    # segments
    names = ["M", "Ms", "L", "Ln", "Z", "Zp", "Q", "C", "A", "l0"]
    sops = ["scale(2)", "rotate(90)", "bump", "reverse"]

    def sdo(s, op):
        if op == "bump":
            bump(s)
        elif op == "reverse":
            s.reverse()
        else:
            s *= op
    sderive = {"copy(s)": lambda s: copy(s), "s * identity": lambda s: s * "scale(1)", "s * Matrix()": lambda s: s * B.Matrix(),
               "s + Line": lambda s: (s + S.Line((0, 0), (1, 1)))[0], "s + text": lambda s: (s + "L3,3")[0],
               "Path() + s": lambda s: (S.Path() + s)[0], "s + Path()": lambda s: (s + S.Path("M0,0"))[0],
               "Path(s) + ''": lambda s: (S.Path(s) + "")[0]}

    def sgen():
        for n in names:
            for how in sderive:
                for d in range(0, 4):
                    for h in itertools.product(range(2 * len(sops)), repeat=d):
                        yield (n, how, h)

    def scase(case, rec):
        n, how, h = case
        a = seg(n)
        start = obs.snap(a)
        b = sderive[how](a)
        if not obs.same_snap([start], [obs.snap(a)], 0.0):
            rec.fail("operand:" + how, "%s changed the segment %r into %r" % (how, start, obs.snap(a)))
            return
        if not obs.same_snap([start], [obs.snap(b)], 1e-12) and not (n in ("Z", "Zp") and "+" in how):
            rec.fail("derive:" + how, "%s of %r is %r" % (how, start, obs.snap(b)))
            return
        pair = [a, b]
        al = [seg(n), seg(n)]
        if n in ("Z", "Zp") and "+" in how:
            al[1] = copy(b)
        for x in h:
            who, op = x % 2, sops[x // 2]
            sdo(al[who], op)
            sdo(pair[who], op)
            rec.step(2)
        rec.state((obs.snap(a), obs.snap(b)))
        rec.outcome((n, how))
        for who in (0, 1):
            rec.compared()
            if not obs.same_snap([obs.snap(al[who])], [obs.snap(pair[who])], 1e-9):
                rec.fail("interference:" + how, "s = %r, b = %s; after %s %s is %r, expected %r" % (
                    start, how, [("sb"[x % 2], sops[x // 2]) for x in h], "sb"[who], obs.snap(pair[who]), obs.snap(al[who])))
    ctx.explore("independent-segments", sgen, scase, bound="%d segments x %d ways to derive one x interleavings of up to 3 of %d edits" % (
        len(names), len(sderive), len(sops)))

    # equality and purity over all pairs of a pool
    pool = [("P", t) for t in ["", "M1,1", "M1,1L2,3", "M1,1L2,3z", "m1,1l1,2Z", "M1,1 2,3z", "M1,1L2,4z", "M1,1Q2,3 4,5", "M1,1Q2,3.5 4,5", "M1,1T4,5",
                               "M1,1C2,3 4,5 6,7", "M1,1C2,3 4,5.5 6,7", "M1,1C2,2 4,5 6,7", "M1,1A5,3 30 0 1 7,4", "M1,1A5,3 30 0 0 7,4", "M1,1A5,3 31 0 1 7,4",
                               "M1,1A5,3 30 1 1 7,4", "M1,1L2,3M2,3", "M1,1L2,3L2,3", "M0,0M1,1L2,3z", "L2,3", "M1,1H2V3", "M1,1L2,3L1,1", "M1,1L2,3M1,1"]]
    pool += [("S", "M1,1L2,3zM5,5L6,6", k) for k in (0, 1)] + [("S", "M0,0M1,1L2,3z", 1)]

    # a first move that knows where it comes from
    pool += [("F", t, a) for a in ((9, 9), (8, 7)) for t in ("M1,1L2,3", "M1,2L2,3", "M1,1")]

    def mk(d):
        if d[0] == "F":
            x = S.Path(d[1])
            x[0].start = B.Point(*d[2])
            return x
        return S.Path(d[1]) if d[0] == "P" else S.Path(d[1]).subpath(d[2])

    def content(d):
        return [obs.snap(x) for x in mk(d)]

    def eq_snap(a, b):
        # a path's first Move carries no start unless given
        return obs.same_snap(a, b, 1e-13)

    def pairs():
        for a in pool:
            for b in pool:
                yield (a, b)
        for a in names:
            for b in names + ["C2", "Q2", "A2", "L2"]:
                yield (("G", a), ("G", b))

    def mkany(d):
        if d[0] != "G":
            return mk(d)
        x = {"C2": "C", "Q2": "Q", "A2": "A", "L2": "L"}.get(d[1])
        s = seg(x or d[1])
        if x == "C":
            s.control1 = B.Point(9, 9)
        elif x == "Q":
            s.control = B.Point(9, 9)
        elif x == "A":
            s.sweep = -s.sweep
        elif x == "L":
            s.end = B.Point(9, 9)
        return s

    def pair_fn(case, rec):
        a, b = map(mkany, case)
        A = [obs.snap(a)] if case[0][0] == "G" else [obs.snap(x) for x in a]
        Bs = [obs.snap(b)] if case[1][0] == "G" else [obs.snap(x) for x in b]
        want = eq_snap(A, Bs)
        rec.state(case)
        rec.step()
        rec.outcome((want, case[0][0], case[1][0]))
        rec.compared(4)
        got = (a == b, b == a, not (a != b), not (b != a))
        if got != (want,) * 4:
            rec.fail("equality", "%r vs %r: (a==b, b==a, not a!=b, not b!=a) = %s, expected %s" % (case[0], case[1], got, want))
        if case[0][0] == "P" and case[1][0] == "P":
            if (a == case[1][1]) != want or (a != case[1][1]) == want:
                rec.fail("equality-text", "Path(%r) == %r is %s, expected %s" % (case[0][1], case[1][1], a == case[1][1], want))
        if case[0][0] != "G":
            for how, f in (("a + b", lambda: a + b), ("a * m", lambda: a * "scale(2) rotate(20)"), ("d", lambda: a.d(relative=True)), ("str", lambda: str(a)),
                           ("repr", lambda: repr(a)), ("bbox", lambda: a.bbox() if case[0][0] == "S" else 0),
                           ("iter", lambda: [list(s) for s in a]),
                           ("measure", lambda: (a.length(error=1e-4), a.point(.5), a.npoint([.1, .9])) if case[0][0] == "P" and case[0][1] != "L2,3" else 0),
                           ("subpaths", lambda: [list(s) for s in a.as_subpaths()] if case[0][0] == "P" and case[0][1] != "L2,3" else 0),
                           ("points", lambda: list(a.as_points()) if case[0][0] == "P" else 0)):
                if how == "a + b" and case[1][0] == "S" and case[0][0] == "S":
                    continue
                c = f()
                rec.compared()
                if not obs.same_snap(A, [obs.snap(x) for x in a], 0.0) or not obs.same_snap(Bs, [obs.snap(x) for x in b], 0.0):
                    rec.fail("impure:" + how, "%s changed an operand: %r, %r" % (how, case[0], case[1]))
                    return
                if how in ("a + b", "a * m") and set(map(id, c)) & (set(map(id, a)) | set(map(id, b))):
                    rec.fail("alias:" + how, "%s shares segments with an operand: %r, %r" % (how, case[0], case[1]))
    ctx.explore("equality", pairs, pair_fn, bound="all pairs of a pool of %d paths and subpaths and of %d segments" % (len(pool), len(names) + 4))

    # the same after either side was asked things that a path may keep
    asks = [("nothing", lambda p: None), ("length", lambda p: p.length()), ("coarse length", lambda p: p.length(error=1e-2, min_depth=2)),
            ("fine length", lambda p: p.length(error=1e-10)), ("point", lambda p: p.point(.3, error=1e-3)), ("pieces", lambda p: ([list(s) for s in p.as_subpaths()], p.d(), str(p)))]
    measurable = [d for d in pool if d[0] == "P" and d[1] != "L2,3"] + [("P", "M1,1C2,3 4,5 6,7z"), ("P", "M0,0C0,5 3,9 8,8A5,3 30 0 1 2,3")]

    def asked_pairs():
        for a in measurable:
            for b in measurable:
                for i in range(len(asks)):
                    for j in range(len(asks)):
                        yield (a, b, i, j)

    def asked_pair(case, rec):
        a, b = mk(case[0]), mk(case[1])
        want = eq_snap(content(case[0]), content(case[1]))
        for x, k in ((a, case[2]), (b, case[3])):
            if len(x):
                asks[k][1](x)
        rec.state(case)
        rec.step(2)
        rec.outcome(want)
        rec.compared(4)
        got = (a == b, b == a, not (a != b), not (b != a))
        if got != (want,) * 4:
            rec.fail("equality after asking", "%r asked for its %s vs %r asked for its %s: (a==b, b==a, not a!=b, not b!=a) = %s, expected %s" % (
                case[0][1], asks[case[2]][0], case[1][1], asks[case[3]][0], got, want))
    there = [("rotate(30)", "rotate(-30)"), ("scale(3)", "scale(%r)" % (1 / 3)), ("translate(0.1,0.7)", "translate(-0.1,-0.7)"), ("skewX(20) rotate(10)", "rotate(-10) skewX(-20)")]

    def near_pairs():
        for d in measurable:
            for m in there:
                for i in range(len(asks)):
                    for j in range(len(asks)):
                        yield (d, m, i, j)

    def near_pair(case, rec):
        """Points equal up to rounding: what == says of such paths does not depend on what was asked before."""
        d, m, i, j = case

        def moved():
            x = mk(d)
            x *= m[0]
            x *= m[1]
            return x
        want = mk(d) == moved()
        a, b = mk(d), moved()
        for x, k in ((a, i), (b, j)):
            if len(x):
                asks[k][1](x)
        rec.state(case)
        rec.step(2)
        rec.outcome(want)
        rec.compared(4)
        got = (a == b, b == a, not (a != b), not (b != a))
        if got != (want,) * 4:
            rec.fail("near equality after asking", "%r asked for its %s vs itself after %s asked for its %s: (a==b, b==a, not a!=b, not b!=a) = %s, expected %s" % (
                d[1], asks[i][0], m, asks[j][0], got, want))
    ctx.explore("near-equality-asked", near_pairs, near_pair, bound="%d paths and the same moved there and back in %d ways, each first asked for one of %d things" % (len(measurable), len(there), len(asks)))
    ctx.explore("equality-asked", asked_pairs, asked_pair, bound="all pairs of %d paths, each first asked for one of %d things" % (len(measurable), len(asks)))
    ctx.assumptions = ["objects passed to append, insert, extend, item assignment or the Path constructor's segment arguments are handed over, not copied"]
    asked.paths(ctx, "asked", [("equals its copy", lambda p: (p == copy(p), p != copy(p))), ("equals another", lambda p: [p == t for t in ("M0,0 L10,0 L10,10 z", "M0,0 L20,0 L20,30 z", "M0,0 L0,10 L-10,10 z")]),
                               ("copy", lambda p: asked.path_points(copy(p))), ("sum", lambda p: asked.path_points(p + "L1,2"))])
    asked.segments(ctx, "asked-segments", [("equals its copy", lambda s: (s == copy(s), s != copy(s))), ("copy", lambda s: asked.seg_points(copy(s))), ("text", lambda s: s * "scale(2)" == s)], kinds="MLZQCA")


# ---------------------------------------------------------------------------------------
class Without:
    """Fault: the optional libraries cannot be imported."""

    def __init__(self, *names):
        self.names = names

    def __enter__(self):
        import sys
        self.saved = {}
        for m in list(sys.modules):
            if m.split(".")[0] in self.names:
                self.saved[m] = sys.modules[m]
                sys.modules[m] = None
        for n in self.names:
            self.saved.setdefault(n, sys.modules.get(n))
            sys.modules[n] = None

    def __exit__(self, *a):
        import sys
        for m, v in self.saved.items():
            if v is None:
                sys.modules.pop(m, None)
            else:
                sys.modules[m] = v


FAULTS = [(), ("numpy", "scipy"), ("scipy",)]


def P16(ctx):
    S = sp()
    import numpy
    import scipy.integrate, scipy.special
    pieces = PIECES + ["T5,5", "S1,1 6,3", "l0,4", "A4,4 0 1 1 3,3", "z", "M3,3", "A0,3 0 0 0 9,9", "a1,9 80 1 1 0.5,0"]
    POS = [0.0, 1e-9, 0.1, 0.25, 1 / 3., 0.5, 0.77, 0.9, 0.999, 1.0]

    def gen():
        for d in range(0, ctx.pick(3, 4) + 1):
            for b in itertools.product(pieces, repeat=d):
                yield ("M1,2" + " ".join(b),)

    def pts(v):
        return None if v is None else [(float(x[0]), float(x[1])) for x in v]

    def run(text):
        p = S.Path(text)
        out = {"length": p.length(error=1e-4)}
        out["points"] = pts([p.point(t, error=1e-4) for t in POS])
        out["around"] = [pts([p.point(max(0.0, t - 1e-4), error=1e-4), p.point(min(1.0, t + 1e-4), error=1e-4)]) for t in POS]
        out["npoints"] = pts(p.npoint(POS, error=1e-4))
        for i, s in enumerate(p):
            out["length%d" % i] = s.length(error=1e-4)
            out["points%d" % i] = pts([s.point(t) for t in POS])
            out["npoints%d" % i] = pts(s.npoint(POS))
            if obs.kind(s) != "M":
                out["bbox%d" % i] = [float(x) for x in s.bbox()]
        return out

    def case_fn(case, rec):
        text = case[0]
        base = run(text)
        rec.state(base)
        rec.outcome(len(base))
        big = max(1.0, base["length"])
        for f in FAULTS[1:]:
            with Without(*f):
                other = run(text)
            rec.step(len(other))
            for k in base:
                rec.compared()
                a, b = base[k], other[k]
                if k == "around":
                    continue
                if k.startswith("length"):
                    ok = close(a, b, 1e-3)
                elif k.startswith("bbox"):
                    ok = all(close(x, y, 1e-9) for x, y in zip(a, b))
                elif k in ("points", "npoints"):
                    # at a junction of subpaths either side will do
                    ok = len(a) == len(b) and all(any(max(abs(x[0] - y[0]), abs(x[1] - y[1])) <= 2e-3 * big for x in [x0] + ar)
                                                  for x0, y, ar in zip(a, b, base["around"]))
                else:
                    ok = len(a) == len(b) and all(close_pt(x, y, 1e-9) for x, y in zip(a, b))
                if not ok:
                    rec.fail("without " + "+".join(f) + ":" + k.rstrip("0123456789"), "Path(%r) %s: %s with numpy and scipy, %s without %s" % (
                        text, k, a, b, "+".join(f)))
    ctx.explore("optional-libraries", gen, case_fn, timeout=30,
                bound="M + all sequences of up to %d of %d pieces x numpy/scipy present, scipy missing, both missing" % (ctx.pick(3, 4), len(pieces)))

    ctx.explore("large", lambda: ((R.text(large.cmds(*c)),) for c in large.cases(ctx, ctx.pick(33, 129), low=ctx.pick(8, 40))), case_fn, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths, and around powers of two to %d" % (ctx.pick(7, 39), ctx.pick(32, 128)))

    def arcs():
        from .geometry import swept_arcs
        return itertools.islice(swept_arcs(ctx), 0, None, ctx.pick(3, 1))

    def acase(c, rec):
        from .geometry import mkseg

        def ask():
            s = mkseg(c)
            return {"length": float(s.length(error=1e-4)), "bbox": [float(x) for x in s.bbox()], "points": pts([s.point(t) for t in POS]), "npoints": pts(s.npoint(POS))}
        base = ask()
        rec.state(base)
        rec.outcome(len(base))
        size = max(c[2][2], c[2][3])
        for f in FAULTS[1:]:
            with Without(*f):
                other = ask()
            rec.step(4)
            rec.compared(4)
            if abs(base["length"] - other["length"]) > 1e-3 * base["length"] + 1e-4:
                rec.fail("arc length", "%r has length %r, without %s %r" % (c, base["length"], "+".join(f), other["length"]))
            if any(abs(x - y) > 1e-9 * size for x, y in zip(base["bbox"], other["bbox"])):
                rec.fail("arc bbox", "%r has bbox %r, without %s %r" % (c, base["bbox"], "+".join(f), other["bbox"]))
            for k in ("points", "npoints"):
                if len(base[k]) != len(other[k]) or not all(close_pt(x, y, 1e-9 * size) for x, y in zip(base[k], other[k])):
                    rec.fail("arc " + k, "%r passes %s, without %s %s" % (c, base[k], "+".join(f), other[k]))
    ctx.explore("arcs", arcs, acase, timeout=30, bound="every %sarc of ellipses x rotations x centres x starts x sweeps up to a turn and a half" % ctx.pick("third ", ""))
    ctx.assumptions = ["positions between 0 and 1; lengths agree to the requested error (1e-4 asked, 1e-3 compared)"]


# ---------------------------------------------------------------------------------------
def P35(ctx):
    """Making closes direct, and listing the defining points."""
    S = sp()
    pieces = ["z", "Z", "L5,1", "l0,0", "L1,2", "M3,3", "m2,-1", "C1,5 4,6 8,2", "C1,5 4,6 z", "Q4,7 1,2", "A5,3 30 0 1 7,4", "a2,4 -20 1 0 3,2"]
    before = ["", "measure", "reverse", "*", "append", "del", "part", "subpath"]

    def gen():
        for d in range(0, ctx.pick(3, 4) + 1):
            for b in itertools.product(pieces, repeat=d):
                for h in (before if d > 1 else before[:4]):
                    yield ("M1,2" + " ".join(b), h)
        for t in ("", "z", "L1,1L5,5z", "zL3,3z"):
            yield (t, "")

    def prepare(text, h):
        p = S.Path(text)
        if h == "measure":
            p.length(error=1e-7)
        elif h == "reverse":
            p.reverse()
        elif h == "*":
            p *= bs().Matrix(0, 2, -1, 0.5, 3, 4)
        elif h == "append":
            p.append(S.Line(None, (-4, 6)))
            p.append(S.Close())
        elif h == "del":
            del p[1]
        elif h == "part":
            p.insert(1, S.Close())
        elif h == "subpath":
            s = p.subpath(-1)
            s += "l1,1z"
        return p

    def points_of(snaps):
        return [q for s in snaps for q in s[1:] if isinstance(q, tuple)]

    def case_fn(case, rec):
        text, h = case
        p = prepare(text, h)
        q = prepare(text, h)
        a = obs.snap_path(p)
        got = [obs.P(x) for x in p.as_points()]
        rec.compared()
        if got != points_of(a):
            rec.fail("as_points", "Path(%r) %s has the points %s, expected %s" % (text, h, got, points_of(a)))
        if a and a[0][0] == "Z":
            # nothing to close to
            p.direct_close()
            return
        want, n = [], 0
        for s in a:
            if s[0] == "Z" and s[1] is not None and s[2] is not None and s[1] != s[2]:
                want.append(("L", s[1], s[2]))
                s = ("Z", s[2], s[2])
                n += 1
            want.append(s)
        total = q.length(error=1e-7) if len(q) else 0
        r = p.direct_close()
        b = obs.snap_path(p)
        rec.state((b, h))
        rec.step(2)
        rec.compared(6)
        rec.outcome((n, h))
        if a and r is not p:
            rec.fail("returns", "Path(%r).direct_close() gives %r" % (text, r))
        if not obs.same_snap(want, b):
            rec.fail("content", "Path(%r) %s made direct is %s, expected %s" % (text, h, b, want))
            return
        if not a:
            return
        if obs.linkage(p):
            rec.fail("linkage", "Path(%r) %s made direct: %s" % (text, h, obs.linkage(p)))
        if len({id(x) for x in p}) != len(p):
            rec.fail("shared", "Path(%r) %s made direct has a segment twice" % (text, h))
        if not close(p.length(error=1e-7), total, 1e-6 * max(1.0, total)):
            rec.fail("length", "Path(%r) %s of length %r made direct has length %r" % (text, h, total, p.length(error=1e-7)))
        if [obs.P(x) for x in p.as_points()] != points_of(b):
            rec.fail("as_points-after", "Path(%r) %s made direct has the points %s" % (text, h, [obs.P(x) for x in p.as_points()]))
        if p.count_subpaths() != q.count_subpaths():
            rec.fail("subpaths", "Path(%r) %s made direct has %d subpaths, not %d" % (text, h, p.count_subpaths(), q.count_subpaths()))
        p.direct_close()
        if not obs.same_snap(b, obs.snap_path(p), 0.0):
            rec.fail("again", "Path(%r) %s made direct twice is %s" % (text, h, obs.snap_path(p)))
        # the points of the segments belong to one segment each
        for i, s in enumerate(p):
            x = copy(p)
            x[i].end.x += 100.0
            for j, t in enumerate(x):
                if j != i and obs.snap(t) != b[j]:
                    rec.fail("alias", "Path(%r) %s made direct: moving the end of segment %d changes segment %d" % (text, h, i, j))
                    break
        x = list(p)
        keep = [obs.snap(s) for s in x]
        for i, s in enumerate(x):
            if s.end is None:
                continue
            was = s.end.x
            s.end.x += 100.0
            for j, t in enumerate(x):
                if j != i and obs.snap(t) != keep[j]:
                    rec.fail("alias", "Path(%r) %s made direct: moving the end of segment %d moves segment %d" % (text, h, i, j))
                    return
            s.end.x = was

    ctx.explore("direct-close", gen, case_fn, bound="M + all sequences of up to %d of %d pieces, after each of %d preparations" % (ctx.pick(3, 4), len(pieces), len(before)))

    def short():
        for k in range(0, 12):
            for x, y in ((1, 0), (0, -1), (-3, 2)):
                for b in ("L5,1", "L5,1 2,7", "C1,5 4,6 8,2", "Q4,7 3,3", "A5,3 30 0 1 7,4"):
                    for f in ("z", "zL3,3z", "zm1,1l2,2z"):
                        yield ("M0,0" + b + "L%.15g,%.15g" % (x * 10.0 ** -k, y * 10.0 ** -k) + f, "")
    ctx.explore("short-closes", short, case_fn, bound="closes of length 1 to 1e-11 x 5 bodies x 3 followers")

    ctx.explore("large", lambda: ((R.text(large.cmds(*c)), "") for c in large.cases(ctx, ctx.pick(33, 129), low=ctx.pick(20, 40))), case_fn, timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths" % ctx.pick(33, 129))

    def rgen():
        body = [x for x in pieces if x[0] not in "zZMm" and "z" not in x]
        one = ["M1,2" + " ".join(b) + "z" for d in range(1, ctx.pick(3, 4)) for b in itertools.product(body, repeat=d)]
        for a in one:
            yield (a,)
        for a in one[::3]:
            for b in one[:len(body) * 3]:
                yield (a + b,)

    def rcase(case, rec):
        """A direct outline reversed still begins and ends at its move."""
        text = case[0]
        p = S.Path(text).direct_close()
        a = [drawn([p[i] for i in part]) for part in split(p)]
        starts = [obs.P(p[part[0]].end) for part in split(p)]
        p.reverse()
        rec.state(obs.snap_path(p))
        rec.step()
        rec.outcome(len(a))
        b = [drawn([p[i] for i in part]) for part in split(p)]
        ends = [obs.P(p[part[0]].end) for part in split(p)]
        rec.compared(len(a))
        if len(a) != len(b) or not all(close_pt(x, y) for x, y in zip(starts, reversed(ends))):
            rec.fail("corner", "Path(%r) made direct and reversed begins at %s, not %s" % (text, ends, starts))
            return
        for x, y in zip(a, reversed(b)):
            if not obs.same_snap([flip(s) for s in reversed(x)], y):
                rec.fail("reversed", "Path(%r) made direct and reversed draws %s, expected %s" % (text, y, [flip(s) for s in reversed(x)]))
                return
    ctx.explore("direct-close-reversed", rgen, rcase, bound="all closed outlines of up to %d pieces, alone and in pairs" % ctx.pick(2, 3))
    ctx.assumptions = ["a close at the very beginning of a path has nothing to close and is only run"]
    asked.paths(ctx, "asked", [("as_points", lambda p: [tuple(q) for q in p.as_points()]), ("segments", asked.path_points), ("length", lambda p: p.length())])
