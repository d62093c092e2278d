"""P33: constructors of segments and paths, and joining with +."""
import itertools
from copy import copy

from . import large
from . import obs
from .paths import bs, clone, fact, facts, relink, same_facts, sp

PLACES = [(0.0, 0.0), (1.5, -2.0), (-3.0, 4.0)]
MID = (7.0, 0.25)


def kinds(p):
    """The same place as every kind of operand."""
    B = bs()
    return [("Point", B.Point(p)), ("tuple", p), ("list", list(p)), ("complex", complex(*p)), ("text", "%r,%r" % p)]


def P33(ctx):
    S, B = sp(), bs()

    # forms: how -> (constructor, args and kwargs) made from start s, inner points, end e
    def forms(kind, s, c, d, e, extra):
        if kind == "M":
            if s is None:
                yield "M(e)", lambda: S.Move(e, **extra), None
                yield "M(end=)", lambda: S.Move(end=e, **extra), None
                yield "M(None,e)", lambda: S.Move(None, e, **extra), None
            else:
                yield "M(s,e)", lambda: S.Move(s, e, **extra), s
                yield "M(e,start=)", lambda: S.Move(e, start=s, **extra), s
                yield "M(s,end=)", lambda: S.Move(s, end=e, **extra), s
                yield "M(start=,end=)", lambda: S.Move(start=s, end=e, **extra), s
        elif kind in "LZ":
            k = {"L": S.Line, "Z": S.Close}[kind]
            yield kind + "(s,e)", lambda: k(s, e, **extra), s
            yield kind + "(s,end=)", lambda: k(s, end=e, **extra), s
            yield kind + "(start=,end=)", lambda: k(start=s, end=e, **extra), s
            if s is None:
                yield kind + "(end=)", lambda: k(end=e, **extra), s
        elif kind == "Q":
            yield "Q(s,c,e)", lambda: S.QuadraticBezier(s, c, e, **extra), s
            yield "Q(s,c,end=)", lambda: S.QuadraticBezier(s, c, end=e, **extra), s
            yield "Q(s,control=,end=)", lambda: S.QuadraticBezier(s, control=c, end=e, **extra), s
            yield "Q(start=,control=,end=)", lambda: S.QuadraticBezier(end=e, start=s, control=c, **extra), s
        elif kind == "C":
            yield "C(s,c,d,e)", lambda: S.CubicBezier(s, c, d, e, **extra), s
            yield "C(s,c,d,end=)", lambda: S.CubicBezier(s, c, d, end=e, **extra), s
            yield "C(s,c,control2=,end=)", lambda: S.CubicBezier(s, c, control2=d, end=e, **extra), s
            yield "C(start=,..)", lambda: S.CubicBezier(end=e, control2=d, control1=c, start=s, **extra), s

    def sgen():
        for kind in "MLZQC":
            for s in [None] + PLACES:
                for e in PLACES:
                    for c, d in ((PLACES[1], MID), (MID, PLACES[0])) if kind in "QC" else ((None, None),):
                        for how in range(5):
                            for extra in ({}, {"relative": True}, {"relative": False}, {"smooth": False}, {"relative": True, "smooth": True}):
                                yield (kind, s, c, d, e, how, tuple(sorted(extra.items())))

    def scase(case, rec):
        kind, s, c, d, e, how, extra = case
        extra = dict(extra)

        def op(p):
            return None if p is None else kinds(p)[how][1]
        want = {"M": (s, e), "L": (s, e), "Z": (s, e), "Q": (s, c, e), "C": (s, c, d, e)}[kind]
        made = []
        rec.state((kind, want))
        for name, f, _ in forms(kind, op(s), op(c), op(d), op(e), extra):
            x = f()
            made.append(x)
            rec.step()
            rec.compared()
            rec.outcome(name)
            got = obs.snap(x)[1:]
            if obs.kind(x) != kind or got != want:
                rec.fail("segment:" + name, "%s with %s as %s and %s gives %s, expected %s" % (name, want, kinds(e)[how][0], extra, got, want))
                continue
            for k, v in extra.items():
                if getattr(x, k) is not v:
                    rec.fail("segment-flag:" + k, "%s with %s: %s is %r" % (name, extra, k, getattr(x, k)))
            # its points are its own and it reads like a sequence of them
            seq = [None if p is None else (p.x, p.y) for p in [x[i] for i in range(len(x))]]
            if seq != list(want):
                rec.fail("segment-items:" + kind, "items of %r are %s, expected %s" % (x, seq, want))
            there = [p for p in want if p is not None]
            if [(p.x, p.y) for p in x] != there:
                rec.fail("segment-iteration:" + kind, "iteration over %r gives %s" % (x, list(x)))
            if [((p.x, p.y), (q.x, q.y)) for p in x for q in x] != [(p, q) for p in there for q in there]:
                rec.fail("segment-iterations:" + kind, "two iterations over %r at once disturb each other" % x)
        for a in made[1:]:
            if not a == made[0] or a != made[0]:
                rec.fail("segment-equal", "%r and %r from the same points are unequal" % (made[0], a))
        if how == 0 and made:
            e0 = B.Point(e)
            x = S.Line(None, e0)
            x *= B.Matrix("translate(5,5)")
            if (e0.x, e0.y) != e:
                rec.fail("segment-shares", "a segment shares the point it was made from")
    ctx.explore("segments", sgen, scase, bound="5 kinds x starts (or none) x ends x 5 kinds of point operands x 5 sets of flags x every constructor form")

    # -- paths from content ------------------------------------------------------------
    PCS = {"M": lambda: S.Move((9, 9)), "L": lambda: S.Line((7, 7), (8, 5)), "Ln": lambda: S.Line(None, (2, 8)), "Z": lambda: S.Close(),
           "Q": lambda: S.QuadraticBezier((0, 0), (1, 5), (6, 6)), "C": lambda: S.CubicBezier(None, (1, 5), (2, 5), (3, 3)),
           "A": lambda: S.Arc((1, 1), 3, 2, 15, 0, 1, (4, 2))}

    def pgen():
        for n in range(0, ctx.pick(4, 5) + 1):
            for t in itertools.product(PCS, repeat=n):
                if not t or t[0] != "Z":
                    yield t

    def pcase(case, rec):
        def fresh():
            return [PCS[k]() for k in case]
        want = [fact(x) for x in fresh()]
        free = clone(want)
        relink(want)
        src = S.Path(fresh())
        ways = [("list", lambda: S.Path(fresh())), ("tuple", lambda: S.Path(tuple(fresh()))), ("Path", lambda: S.Path(src)), ("copy", lambda: copy(src)),
                ("Path of list(path)", lambda: S.Path([copy(x) for x in src])), ("empty+extend", lambda: ext(S.Path(), fresh()))]
        if case.count("M") == 1 and case[0] == "M":
            ways.append(("Subpath", lambda: S.Path(src.subpath(0))))
        rec.state(want)
        for name, f in ways:
            rec.step()
            rec.compared()
            p = f()
            diff = same_facts(facts(p), want)
            if diff:
                rec.fail("path:" + name, "a path made from %s (%s): %s" % (case, name, diff))
            elif not (p == src) or p != src:
                rec.fail("path-equal:" + name, "a path made from %s (%s) is unequal" % (case, name))
        # separate arguments are kept as they are
        if len(case) != 1:
            p = S.Path(*fresh())
            diff = same_facts(facts(p), free)
            if diff:
                rec.fail("path:arguments", "Path(*segments) of %s: %s" % (case, diff))
        else:
            p = S.Path(fresh()[0])
            diff = same_facts(facts(p), free)
            if diff:
                rec.fail("path:argument", "Path(segment) of %s: %s" % (case, diff))

    def ext(p, x):
        p.extend(x)
        return p
    ctx.explore("large", lambda: (tuple("MLnQCZALnM"[i % 10] if "MLnQCZALnM"[i % 10] != "n" else "Ln" for i in range(s, n + s)) for n in large.counts(ctx, 257) for s in (0, 1, 3, 8)), pcase,
                timeout=60, bound="lists of up to %d segments and around powers of two to 256" % (ctx.pick(20, 70) - 1))
    ctx.explore("paths", pgen, pcase, bound="all lists of up to %d of 7 segments (not starting with a close) through 8 ways to make a path of them" % ctx.pick(4, 5))

    # -- joining -----------------------------------------------------------------------
    LEFT = ["M1,1", "M0,0L4,0", "M0,0L4,0 4,4z", "M1,2Q3,4,5,6T9,9", "M0,0L1,1zM5,5A2,3,10,0,1,8,8", "M1,2C1,1,2,2,5,5M3,3"]
    RIGHT = ["M7,7", "L3,4", "l1,1 2,2z", "M2,2 L5,5z", "Q1,5,6,6", "t5,5", "z", "h3v4", "m1,1 2,2", "", "A1,1,0,0,1,5,5", "M0,0L1,1M2,2C1,2,3,4,5,6z"]
    SEGN = ["M", "Ms", "L", "Ln", "Z", "Zp", "Q", "C", "A"]
    from .paths import seg

    def jgen():
        for a in LEFT:
            for how in ("Path", "Subpath", "text"):
                for b in RIGHT:
                    for bh in ("Path", "text", "Subpath"):
                        for form in ("+", "+="):
                            yield (how, a, bh, b, form)
                for s in SEGN:
                    for form in ("+", "+="):
                        yield (how, a, "segment", s, form)
                    yield ("segment", s, how, a, "+")
        for s in SEGN:
            for t in SEGN:
                yield ("segment", s, "segment", t, "+")
                yield ("segment", s, "segment", t, "+=")
            for b in RIGHT:
                for form in ("+", "+="):
                    yield ("segment", s, "text", b, form)

    def operand(how, x):
        if how == "segment":
            return seg(x)
        if how == "text":
            return x
        if how == "Path":
            return S.Path(x)
        return S.Path(x).subpath(-1)

    def parts(how, x):
        if how == "segment":
            return [fact(seg(x))]
        p = S.Path(x)
        return facts(p if how != "Subpath" else p.subpath(-1))

    def jcase(case, rec):
        ah, a, bh, b, form = case
        # not joined by svgio: text with text and segments, subpaths with subpaths; a lone fragment is not a path with subpaths
        if ah == "text" and bh in ("text", "segment") or ah == "Subpath" and bh == "Subpath":
            return rec.skip("not joined by svgio")
        if bh == "Subpath" and b[:1] not in "M":
            return rec.skip("a fragment has no subpaths")
        if ah == "segment" and a in ("Z", "Zp"):
            return rec.skip("path starting with a close")
        if bh == "Path" and b[:1] not in "MLQ":
            return rec.skip("a relative fragment, smooth curve or close on its own depends on what it follows")
        x, y = operand(ah, a), operand(bh, b)
        bx, by = repr(x), repr(y)
        rec.step()
        rec.compared()
        left = parts(ah, a)
        if bh == "text":
            # the text goes on where the left ends: relative and smooth commands take its current point
            if ah == "segment":
                q = S.Path(copy(seg(a)))
                q.parse(b)
                want = facts(q)
            else:
                src = S.Path(a)
                if ah == "Subpath":
                    # written into the part alone
                    if b[:1] not in "MLQ" and b:
                        return rec.skip("text into a subpath is parsed on its own")
                    want = left + parts("Path", b)
                else:
                    want = facts(S.Path(a + b))
        else:
            want = left + parts(bh, b)
        relink(want)
        if form == "+":
            z = x + y
        else:
            z = x
            z += y
        rec.state((case, want))
        rec.outcome((ah, bh, form))
        if not isinstance(z, (S.Path, S.Subpath)):
            return rec.fail("join-type:%s%s%s" % (ah, form, bh), "%r %s %r gives %r" % (bx, form, by, z))
        diff = same_facts(facts(z), want)
        if diff:
            rec.fail("join:%s%s%s" % (ah, form, bh), "%s(%r) %s %s(%r): %s" % (ah, a, form, bh, b, diff))
        if repr(y) != by and not (form == "+=" and bh == "segment"):
            rec.fail("join-right:%s%s%s" % (ah, form, bh), "%s %s %s changed the right operand" % (bx, form, by))
        if form == "+" and repr(x) != bx:
            rec.fail("join-left:%s%s%s" % (ah, form, bh), "%s %s %s changed the left operand" % (bx, form, by))
        if form == "+" or bh == "Path" or bh == "Subpath":
            # the result is independent of the operands
            snap = facts(z)
            for o in (x, y):
                if o is z or isinstance(o, str):
                    continue
                o *= B.Matrix("translate(3,5)")
            diff = same_facts(facts(z), snap)
            if diff:
                rec.fail("join-shares:%s%s%s" % (ah, form, bh), "%s %s %s shares segments with an operand: %s" % (bx, form, by, diff))
    ctx.explore("joins", jgen, jcase, bound="%d drawings as path, subpath or text joined with %d continuations as path, subpath or text and 9 segments, both orders, + and +=" % (len(LEFT), len(RIGHT)))
    ctx.assumptions = ["joins that svgio does not define (subpath with subpath, text with segment) and continuations that depend on what precedes them are left out"]
