"""Lengths and colours against independent models.

P23 length arithmetic, P24 length resolution, P25 colour text, P26 colour channels, P27 hue/saturation/lightness,
P28 compositing and distance, P29 distinct colours.
"""
import colorsys
import itertools
import math
import operator
from copy import copy

from . import asked
from . import again
from . import core
from .core import close


def bs():
    import svgio.basic as m
    return m


# -- lengths ---------------------------------------------------------------------------
# unit -> (family, size of one unit in the family's base unit)
UNITS = {"": ("px", 1.0), "px": ("px", 1.0), "pt": ("px", 4 / 3.), "pc": ("px", 16.0), "mm": ("in", 1 / 25.4), "cm": ("in", 1 / 2.54),
         "in": ("in", 1.0), "%": ("%", 1.0), "em": ("em", 1.0), "ex": ("ex", 1.0), "vw": ("vw", 1.0), "vh": ("vh", 1.0), "vmin": ("vmin", 1.0),
         "vmax": ("vmax", 1.0)}
TOL = 2e-6  # the library keeps 1/25.4 as 0.0393701


def quantity(amount, unit):
    fam, size = UNITS[unit]
    return fam, amount * size


def q_of(l):
    return quantity(l.amount, l.units)


def same_q(l, fam, base, scale=0.0):
    """A Length holds the given quantity (zero may carry any unit); scale is the size of the operands of a sum."""
    if not isinstance(l, bs().Length):
        return base == 0 and isinstance(l, (int, float)) and abs(l) < 1e-12
    f, b = q_of(l)
    if abs(base) < 1e-12:
        return abs(b) < 1e-9 + TOL * scale
    return f == fam and (close(b, base, TOL) or abs(b - base) <= TOL * scale)


def fresh(l):
    return bs().Length(l.amount, l.units)


def P23(ctx):
    B = bs()
    L = B.Length
    amounts = ctx.pick([0, 1, -2.5, 2.5, 12, 0.5], [0, 1, -1, -2.5, 2.5, 12, 0.5, 1000, 1e-3, 72, 25.4])
    units = list(UNITS)
    lens = [(a, u) for a in amounts for u in units]

    def text(d):
        return "%s%s" % (repr(d[0]), d[1])

    def forms(d):
        """The same operand as Length, text and, without a unit, as a number."""
        yield "Length", L(text(d))
        yield "text", text(d)
        if d[1] == "":
            yield "number", d[0]

    def pairs():
        for a in lens:
            for b in lens:
                yield (a, b)

    def combine(qa, qb, sign):
        """Sum of two quantities or None if they cannot be combined."""
        if qa[0] == qb[0] or qb[1] == 0:
            return qa[0], qa[1] + sign * qb[1]
        if qa[1] == 0:
            return qb[0], sign * qb[1]
        return None

    def pair_fn(case, rec):
        a, b = case
        qa, qb = quantity(*a), quantity(*b)
        rec.state(case)
        for how, y in forms(b):
            for op, sign in (("+", 1), ("-", -1), ("+=", 1), ("-=", -1), ("r+", 1), ("r-", -1)):
                x = L(text(a))
                want = combine(qa, qb, sign) if op != "r-" else combine(qb, qa, -1)
                y0 = repr(y)
                rec.step()
                rec.compared()
                try:
                    if op == "+":
                        r = x + y
                    elif op == "-":
                        r = x - y
                    elif op == "+=":
                        r = x
                        r += y
                    elif op == "-=":
                        r = x
                        r -= y
                    elif op == "r+":
                        r = y + x
                    else:
                        r = y - x
                except ValueError:
                    r = ValueError
                rec.outcome((op, r is ValueError, qa[0] == qb[0]))
                if want is None:
                    if r is not ValueError:
                        rec.fail("incompatible:%s" % op, "%s %s %s (%s) gives %r, expected ValueError" % (text(a), op, text(b), how, r))
                elif r is ValueError or not same_q(r, *want, max(abs(qa[1]), abs(qb[1]))):
                    rec.fail("sum:%s:%s" % (op, how), "%s %s %s (%s) gives %r, expected %s%s" % (text(a), op, text(b), how, r, want[1], want[0]))
                if repr(y) != y0 or (op not in ("+=", "-=") and (x.amount, x.units) != (float(a[0]), a[1])):
                    rec.fail("operand:%s" % op, "%s %s %s changed an operand: %r %r" % (text(a), op, text(b), x, y))
                if op not in ("+=", "-=") and (r is x or r is y):
                    rec.fail("own:%s" % op, "%s %s %s gives an operand itself" % (text(a), op, text(b)))
                if op in ("+=", "-=") and r is not ValueError and r is not x:
                    rec.fail("inplace:%s" % op, "%s %s %s gives a new object" % (text(a), op, text(b)))
            # comparisons
            x = L(text(a))
            d = combine(qa, qb, -1)
            exact = a[1] == b[1] or {a[1], b[1]} <= {"mm", "cm"} or {a[1], b[1]} <= {"", "px", "pc", "pt"} or qa[1] == 0 or qb[1] == 0
            got = {}
            for op, f in (("<", lambda: x < y), ("<=", lambda: x <= y), (">", lambda: x > y), (">=", lambda: x >= y)):
                try:
                    got[op] = f()
                except ValueError:
                    got[op] = ValueError
            got["=="] = x == y
            got["!="] = x != y
            if how != "number":
                got["r=="] = y == x
            rec.step(len(got))
            rec.compared(len(got))
            if d is None:
                want = {"<": ValueError, "<=": ValueError, ">": ValueError, ">=": ValueError, "==": False, "!=": True, "r==": False}
            else:
                diff = d[1]
                if not exact and abs(diff) <= 1e-3 * max(abs(qa[1]), abs(qb[1])):
                    rec.skip("equal only up to the rounding of the conversion factor")
                    continue
                if abs(diff) <= 1e-12:
                    diff = 0
                want = {"<": diff < 0, "<=": diff <= 0, ">": diff > 0, ">=": diff >= 0, "==": diff == 0, "!=": diff != 0, "r==": diff == 0}
                if a[1] != b[1] and diff == 0 and not (qa[1] == 0 and qb[1] == 0):
                    # 1cm - 10mm is zero only to rounding
                    for k in ("<", "<=", ">", ">="):
                        want.pop(k)
            for k in got:
                if k in want and got[k] is not want[k]:
                    rec.fail("compare:" + k, "Length('%s') %s %r (%s) is %s, expected %s" % (text(a), k, y, how, got[k], want[k]))
    ctx.explore("pairs", pairs, pair_fn, bound="all pairs of %d amounts x %d units, as Length, text and number" % (len(amounts), len(units)))

    # sums of amounts of very different size
    def fargen():
        for ua in units:
            for ub in units:
                for a in (1e-13, 1e-9, -1e-7, 1e-5, 1e-3, 7.0, 1e6, -1e9):
                    for b in (0, 1e-12, -1e-8, 1e-6, 1e-4, 3.0, 1e7):
                        yield ((a, ua), (b, ub))

    def farfn(case, rec):
        a, b = case
        qa, qb = quantity(*a), quantity(*b)
        rec.state(case)
        rec.step(4)
        rec.compared(4)
        for n, f, w in (("+", lambda x, y: x + y, combine(qa, qb, 1)), ("-", lambda x, y: x - y, combine(qa, qb, -1)), ("+=", operator.iadd, combine(qa, qb, 1)), ("-=", operator.isub, combine(qa, qb, -1))):
            try:
                r = f(L(text(a)), L(text(b)))
            except ValueError:
                r = None
            rec.outcome((n, r is None))
            if (w is None) != (r is None):
                rec.fail("far:" + n, "%s %s %s gives %r, expected %s" % (text(a), n, text(b), r, w or "ValueError"))
            elif w is not None and (not isinstance(r, L) or q_of(r)[0] != w[0] or abs(q_of(r)[1] - w[1]) > TOL * max(abs(qa[1]), abs(qb[1]))):
                rec.fail("far:" + n, "%s %s %s gives %r, expected %s" % (text(a), n, text(b), r, w))
    ctx.explore("far sums", fargen, farfn, bound="8 x 7 amounts of 1e-13 to 1e9 x all pairs of units")

    def farpairs():
        some = ctx.pick((1e-9, -1e-5, 1e-3, 7.0, 2540.0, 1e6, -1e9), (1e-12, 1e-9, -1e-7, 1e-5, 1e-3, 0.1, 7.0, 99.0, 2540.0, -1e4, 1e6, -1e9, 1e12))
        for ua in units:
            for ub in units:
                for a in some:
                    for b in some:
                        yield ((a, ua), (b, ub))

    def farquot(case, rec):
        a, b = case
        (fa, qa), (fb, qb) = quantity(*a), quantity(*b)
        rec.state(case)
        rel = lambda g, w: isinstance(g, (int, float)) and abs(g - w) <= TOL * abs(w)
        for how, y in (("Length", L(text(b))), ("text", text(b))):
            rec.step()
            rec.compared()
            try:
                r = L(text(a)) / y
            except ValueError:
                r = ValueError
            rec.outcome(r is ValueError)
            if (fa == fb) != rel(r, qa / qb if fa == fb else 0) and not (fa != fb and r is ValueError):
                rec.fail("far ratio", "%s / %s (%s) is %r" % (text(a), text(b), how, r))
        for n, f, w in (("x*k", lambda: L(text(a)) * b[0], qa * b[0]), ("k*x", lambda: b[0] * L(text(a)), qa * b[0]), ("x/k", lambda: L(text(a)) / b[0], qa / b[0]),
                        ("x*=k", lambda: operator.imul(L(text(a)), b[0]), qa * b[0])):
            r = f()
            rec.step()
            rec.compared()
            if not isinstance(r, L) or q_of(r)[0] != fa or not rel(q_of(r)[1], w):
                rec.fail("far scale:" + n, "%s with x = %s, k = %r is %r" % (n, text(a), b[0], r))
        if b[1] == "%" and a[1] != "%":
            for n, f in (("x*p", lambda: L(text(a)) * L(text(b))), ("x*text", lambda: L(text(a)) * text(b)), ("p*x", lambda: L(text(b)) * L(text(a))), ("p*text", lambda: L(text(b)) * text(a)),
                         ("x*=p", lambda: operator.imul(L(text(a)), L(text(b)))), ("p*=x", lambda: operator.imul(L(text(b)), L(text(a))))):
                r = f()
                rec.step()
                rec.compared()
                if not isinstance(r, L) or q_of(r)[0] != fa or not rel(q_of(r)[1], qa * b[0] / 100.0):
                    rec.fail("far percent:" + n, "%s with x = %s, p = %s is %r" % (n, text(a), text(b), r))
    ctx.explore("far quotients", farpairs, farquot, bound="amounts of 1e-9 to 1e9 x all pairs of units: ratios, multiples and percentages")

    # scaling, quotients
    def sgen():
        for a in lens:
            for k in (0, 1, -3, 2.5, 0.1):
                yield (a, k)

    def sfn(case, rec):
        a, k = case
        fam, base = quantity(*a)
        rec.state(case)
        x = L(text(a))
        out = [("x*k", lambda: x * k, base * k), ("k*x", lambda: k * x, base * k), ("-x", lambda: -x, -base), ("abs", lambda: abs(x), abs(base)),
               ("copy", lambda: copy(x), base)]
        if k:
            out += [("x/k", lambda: x / k, base / k), ("x//k", lambda: x // k, base / k)]
        for n, f, w in out:
            r = f()
            rec.step()
            rec.compared()
            rec.outcome(n)
            if not same_q(r, fam, w):
                rec.fail("scale:" + n, "%s with x=%s k=%s gives %r, expected %s%s" % (n, text(a), k, r, w, fam))
            if r is x or (x.amount, x.units) != (float(a[0]), a[1]):
                rec.fail("scale-operand:" + n, "%s changed or returned its operand %s" % (n, text(a)))
        y = L(text(a))
        z = y
        z *= k
        if z is not y or not same_q(y, fam, base * k):
            rec.fail("scale:*=", "%s *= %s gives %r" % (text(a), k, y))
    ctx.explore("scaling", sgen, sfn, bound="every length x 5 factors")

    def qgen():
        for a in lens:
            for b in lens:
                if b[0] != 0:
                    yield (a, b)

    def qfn(case, rec):
        a, b = case
        (fa, qa), (fb, qb) = quantity(*a), quantity(*b)
        rec.state(case)
        for how, y in forms(b):
            if how == "number":
                continue
            x = L(text(a))
            rec.step()
            rec.compared()
            try:
                r = x / y
            except ValueError:
                r = ValueError
            rec.outcome(r is ValueError)
            if fa == fb or qa == 0:
                if r is ValueError or isinstance(r, L) or not close(r, qa / qb, TOL):
                    rec.fail("ratio", "%s / %s (%s) is %r, expected %r" % (text(a), text(b), how, r, qa / qb))
            elif r is not ValueError:
                rec.fail("ratio-incompatible", "%s / %s (%s) is %r, expected ValueError" % (text(a), text(b), how, r))
            if (x.amount, x.units) != (float(a[0]), a[1]):
                rec.fail("ratio-operand", "%s / %s changed its operand" % (text(a), text(b)))
            # percentages of a length
            if b[1] == "%" and a[1] != "%" and a[0] != 0:
                for n, f in (("x*p", lambda: x * y), ("p*x", lambda: (y if isinstance(y, L) else L(y)) * x)):
                    p = f()
                    if not same_q(p, fa, qa * b[0] / 100.0):
                        rec.fail("percent:" + n, "%s with x=%s p=%s is %r" % (n, text(a), text(b), p))
    ctx.explore("quotients", qgen, qfn, bound="all pairs with a non-zero divisor, as Length and text; percentages of lengths")

    # equal quantities in different units, and the smallest differences
    def eqgen():
        for k in range(-8, 9):
            same = [("px", 48 * k), ("", 48 * k), ("pt", 36 * k), ("pc", 3 * k)]
            same2 = [("mm", 10 * k), ("cm", k)]
            for group, step in ((same, 1e-4), (same, 0), (same2, 1e-4), (same2, 0)):
                for a in group:
                    for b in group:
                        yield (a, b, step)
            for u in UNITS:
                for step in (1e-3, 1e-4, 1e-6, 0):
                    yield ((u, k), (u, k), step)

    def eqfn(case, rec):
        (ua, a), (ub, b), step = case
        x, y = L("%s%s" % (a, ua)), L("%r%s" % (b + step, ub))
        rec.state(case)
        rec.step(6)
        rec.compared(6)
        zero = a == 0
        got = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y, "r<": y > x, "r==": y == x}
        want = {"<": step > 0, "<=": True, ">": False, ">=": step == 0, "==": step == 0, "!=": step != 0, "r<": step > 0, "r==": step == 0}
        for k in got:
            if got[k] is not want[k]:
                rec.fail("near:" + k, "%r %s %r is %s" % (x, k, y, got[k]))
        for how, r in (("-", y - x), ("r-", y - ("%s%s" % (a, ua)))):
            if not isinstance(r, L) or q_of(r)[0] != UNITS[ub][0] and step or abs(q_of(r)[1] - step * UNITS[ub][1]) > 1e-9:
                rec.fail("near:" + how, "%r - %r (%s) is %r" % (y, x, how, r))
        if not zero and not step:
            for how, r in (("/", x / y), ("/text", x / ("%s%s" % (b, ub)))):
                if abs(r - 1) > 1e-12:
                    rec.fail("near:" + how, "%r / %r is %r" % (x, y, r))
    ctx.explore("equal quantities", eqgen, eqfn, bound="17 quantities in every pair of px, pt, pc and of mm, cm, equal and 1e-4 apart; every unit with differences down to 1e-6")

    # histories of in-place arithmetic on one object
    steps = [("+=", "1in"), ("-=", "25.4mm"), ("+=", "2cm"), ("+=", "3px"), ("-=", "1pc"), ("+=", "6pt"), ("*=", 2), ("*=", -0.5), ("+=", 4), ("-=", "0em"),
             ("+=", "1em"), ("-=", "50%"), ("+=", "10%"), ("*=", 0)]

    def hgen():
        for start in ("0", "1in", "2px", "3pt", "1.5cm", "10%", "2em", "20mm", "2pc"):
            for d in range(1, ctx.pick(4, 5) + 1):
                for h in itertools.product(steps, repeat=d):
                    yield (start, h)

    def hfn(case, rec):
        start, h = case
        x = L(start)
        fam, base = q_of(x)
        for op, v in h:
            before = (x.amount, x.units)
            want = None
            if op == "*=":
                want = (fam, base * v)
            else:
                o = L(v) if isinstance(v, str) else L(v, "")
                want = combine((fam, base), q_of(o), 1 if op == "+=" else -1)
            rec.step()
            rec.compared()
            try:
                if op == "+=":
                    x += v
                elif op == "-=":
                    x -= v
                else:
                    x *= v
                ok = True
            except ValueError:
                ok = False
            if want is None:
                if ok:
                    rec.fail("history-incompatible", "%s after %s: %r accepted, gives %r" % (start, h, (op, v), x))
                    return
                if (x.amount, x.units) != before:
                    rec.fail("history-failed-op", "%s: failing %r changed the length from %s to %s" % (start, (op, v), before, (x.amount, x.units)))
                    return
                continue
            if not ok:
                rec.fail("history-rejects", "%s after %s: %r raised" % (start, h, (op, v)))
                return
            if abs(want[1]) < 1e-4 and want[1] != 0 or (want[1] == 0 and x.amount != 0):
                # cancelled to within the rounding of the conversion factors: zero or not is undecided
                rec.skip("cancels to rounding")
                return
            fam, base = want
            if not isinstance(x, L) or not (same_q(x, fam, base) or abs(q_of(x)[1] - base) < 2e-3):
                rec.fail("history", "%s after %s is %r, expected %s%s" % (start, h, x, base, fam))
                return
            fam, base = q_of(x) if base != 0 else (q_of(x)[0], 0.0)
        rec.state((start, fam, round(base, 6)))
        rec.outcome((fam, len(h)))
    ctx.explore("histories", hgen, hfn, bound="9 lengths x all histories of up to %d of %d in-place operations" % (ctx.pick(4, 5), len(steps)))
    ctx.assumptions = ["millimetres and inches convert to 2e-6 (0.0393701 in per mm, which the test suite fixes)",
                       "comparisons of lengths equal only up to that factor are not decided", "zero has no unit"]
    def put(k, v):
        return ("%s = %r" % (k, v), lambda o: setattr(o, k, v))
    asked.explore(ctx, "asked", [(t, lambda t=t: L(t)) for t in ("3mm", "25%", "2em", "1.5in", "7")],
                  [put("amount", 4.5), put("units", "cm"), put("units", "%"), ("*= 2", lambda o: o.__imul__(2)), ("+= 1cm", lambda o: o.__iadd__(L("1cm"))), ("-= 1in", lambda o: o.__isub__("1in")), ("/= 4", lambda o: o.__itruediv__(4))],
                  [(n, lambda o, f=f: (lambda v: str(v) if isinstance(v, L) else v)(f(o))) for n, f in
                   [("+ %s" % t, lambda o, t=t: o + t) for t in ("1mm", "1%", "1px")] + [("== %s" % t, lambda o, t=t: o == t) for t in ("3mm", "4.5cm", "25%", "1.5in")] + [("< %s" % t, lambda o, t=t: o < L(t)) for t in ("1cm", "30%")] +
                   [("/", lambda o: o / L("1mm")), ("-", lambda o: -o), ("abs", abs), ("* 3", lambda o: o * 3), ("text", str)]], 2)


def P24(ctx):
    B = bs()
    L = B.Length
    amounts = ctx.pick([0, 1, -2.5, 12, 33.125], [0, 1, -1, -2.5, 12, 33.125, 0.001, 1000])
    ppis = [None, 96.0, 72, 300]
    rels = [None, 200, 80.5, "200", "1in", "50mm", "3pc", "Length:2cm", "Length:40px",
            "10vw", "Length:20vh", "Length:5vmin", "2em", "Length:3ex"]
    fonts = [None, 16, 10.5]
    heights = [None, 8]
    boxes = [None, "0 0 200 100", "5 5 100 300", "obj:0 0 40 60"]

    def gen():
        for a in amounts:
            for u in UNITS:
                for p in ppis:
                    for r in (rels if u == "%" or ctx.thorough else rels[:2] + rels[4:5]):
                        for f in fonts:
                            for h in heights:
                                for b in (boxes if u[:1] == "v" or u == "%" and isinstance(r, str) and "v" in r or ctx.thorough else boxes[:2]):
                                    yield (a, u, p, r, f, h, b)

    def resolve(a, u, p, r, f, h, b):
        """('px', v) if known in user units, else the quantity still open."""
        if u in ("", "px", "pt", "pc"):
            return "px", a * UNITS[u][1]
        if u in ("mm", "cm", "in"):
            if p is None:
                return "in", a * UNITS[u][1]
            return "px", a * UNITS[u][1] * p
        if u == "%":
            if r is None:
                return "%", a
            if isinstance(r, (int, float)):
                return "px", a * r / 100.0
            t = r.split(":")[-1]
            i = max(k for k in range(len(t) + 1) if k == 0 or t[:k].replace(".", "").isdigit())
            return resolve(a * float(t[:i]) / 100.0, t[i:], p, None, f, h, b)
        if u == "em":
            return ("px", a * f) if f is not None else (u, a)
        if u == "ex":
            return ("px", a * h) if h is not None else (u, a)
        if b is None:
            return u, a
        w, hh = [float(x) for x in b.split(":")[-1].split()][2:]
        m = {"vw": w, "vh": hh, "vmin": min(w, hh), "vmax": max(w, hh)}[u]
        return "px", a * m / 100.0

    def case_fn(case, rec):
        a, u, p, r, f, h, b = case
        x = L(a, u) if (a * 8) % 2 else L("%r%s" % (a, u))
        R = L(r.split(":")[1]) if isinstance(r, str) and r.startswith("Length") else r
        Bx = B.Viewbox(b.split(":")[1]) if b is not None and b.startswith("obj") else b
        kw = dict(ppi=p, relative_length=R, font_size=f, font_height=h, viewbox=Bx)
        got = x.value(**kw)
        fam, want = resolve(*case)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome((u, fam))
        if fam == "px":
            if isinstance(got, L) or not close(got, want, TOL):
                rec.fail("value:" + (u or "none"), "Length(%r, %r).value(%s) is %r, expected %r" % (a, u, kw, got, want))
        elif not same_q(got, fam, want):
            rec.fail("open:" + (u or "none"), "Length(%r, %r).value(%s) is %r, expected a Length of %s%s" % (a, u, kw, got, want, fam))
        if (x.amount, x.units) != (a, u) or (isinstance(R, L) and str(R) != r.split(":")[1]):
            rec.fail("value-changes", "value() changed Length(%r, %r) or its relative length %r" % (a, u, R))
        if fam == "px" and p is not None:
            for unit, m, size in (("mm", x.to_mm, 25.4), ("cm", x.to_cm, 2.54), ("in", x.to_inch, 1.0)):
                t = m(**kw)
                rec.compared()
                rec.step()
                if not isinstance(t, L) or t.units != unit or not close(t.amount, want / p * size, 2e-4) and abs(t.amount) > 1e-9:
                    rec.fail("to_" + unit, "Length(%r, %r).to_%s(%s) is %r, expected %r" % (a, u, unit, kw, t, want / p * size))
                v = t.value(ppi=p)
                if not close(v, want, TOL) and abs(want) > 1e-7:
                    rec.fail("back_" + unit, "Length(%r, %r) to %s and back is %r, expected %r" % (a, u, unit, v, want))
    ctx.explore("resolution", gen, case_fn, bound="%d amounts x %d units x every subset of known quantities" % (len(amounts), len(UNITS)))

    # text
    spell = ["1", "-1", "+1", "0", "12.5", "-.5", "+.25", "1e2", "1.5e-3", "2E+1", "-1.25E1", "007", "123456.789"]

    def tgen():
        for n in spell:
            for u in UNITS:
                for pre in ("", " ", "\n\t"):
                    for post in ("", " ", "\n"):
                        yield (n, u, pre, post)

    def tfn(case, rec):
        n, u, pre, post = case
        t = pre + n + u + post
        x = L(t)
        rec.state(case)
        rec.step(3)
        rec.compared(3)
        rec.outcome((u, float(n) == 0))
        if x.units != u or not close(x.amount, float(n), 1e-15):
            rec.fail("text", "Length(%r) is (%r, %r)" % (t, x.amount, x.units))
            return
        for how, y in (("str", L(str(x))), ("Length(Length)", L(x)), ("repr", eval(repr(x), {"Length": L})), ("copy", copy(x))):
            if y is x or y.units != u or not close(y.amount, x.amount, 1e-12) or not (x == y) or x != y:
                rec.fail("text-" + how, "Length(%r) by %s is %r" % (t, how, y))
        if u in ("", "px", "pt", "pc") and not close(float(x), float(n) * UNITS[u][1], TOL):
            rec.fail("float", "float(Length(%r)) is %r" % (t, float(x)))
    ctx.explore("text", tgen, tfn, bound="%d number spellings x %d units x surrounding blanks; str, repr, copy and Length() of each" % (len(spell), len(UNITS)))

    # what a text means does not depend on what was read or edited before
    def isq(l, w, rec, what):
        if l.units != w[1] or not close(l.amount, w[0], 1e-12):
            rec.fail("history", "%s: Length is (%r, %r), expected %r" % (what, l.amount, l.units, w))

    def setamount(l):
        l.amount = 77.0

    def iop(f):
        def g(l):
            f(l)
        return g

    def iadd(l):
        l += l.__class__(5, l.units)

    def imul(l):
        l *= 3

    def isub(l):
        l -= l.__class__(2, l.units)

    def solve(l):
        l.value(ppi=96, relative_length=50, font_size=10, font_height=5, viewbox="0 0 100 50")
    again.explore(ctx, "histories", [("3", (3.0, "")), ("3px", (3.0, "px")), ("50%", (50.0, "%")), ("0", (0.0, "")), ("2in", (2.0, "in")), ("1.5em", (1.5, "em"))], L, isq,
                  [("amount", setamount), ("+=", iadd), ("*=", imul), ("-=", isub), ("value", solve)], ctx.pick(4, 5))
    ctx.assumptions = ["conversion factors accepted to 6e-5", "relative lengths given as text are not zero"]
    # asked in one context, then changed or asked in another
    def put(k, v):
        return ("%s = %r" % (k, v), lambda o: setattr(o, k, v))
    asked.explore(ctx, "asked", [(t, lambda t=t: L(t)) for t in ("3mm", "25%", "2em", "1.5in", "10vw", "7")],
                  [put("amount", 4.5), put("units", "cm"), put("units", "%"), put("units", "px"), ("*= 2", lambda o: o.__imul__(2)), ("+=", lambda o: o.__iadd__(L("1cm")))],
                  [("value(%s)" % kw, lambda o, kw=kw: (lambda v: str(v) if isinstance(v, L) else v)(o.value(**kw))) for kw in
                   ({}, {"ppi": 96}, {"ppi": 72}, {"relative_length": 200}, {"relative_length": 50}, {"relative_length": "1in", "ppi": 96}, {"font_size": 16}, {"font_size": 10}, {"viewbox": "0 0 200 100"}, {"viewbox": "0 0 50 10"},
                    {"ppi": 96, "relative_length": 7, "font_size": 3, "viewbox": "0 0 10 10"})] + [("to_mm(%s)" % p, lambda o, p=p: str(o.to_mm(ppi=p))) for p in (72, 96)] + [("text", str), ("repr", repr)], ctx.pick(1, 2))


# -- colours ---------------------------------------------------------------------------

def chan(c):
    return (c.red, c.green, c.blue, c.alpha)


def colour_histories(ctx, looks):
    """looks at colours between writes of every channel and component."""
    C = bs().Color

    def put(k, v):
        return ("%s = %r" % (k, v), lambda o: setattr(o, k, v))
    asked.explore(ctx, "asked", [(t, lambda t=t: C(t)) for t in ("#12345678", "red", "rgba(10,200,30,0.5)")],
                  [put(k, v) for k, v in (("red", 7), ("green", 99), ("blue", 200), ("alpha", 60), ("opacity", 0.25), ("rgb", 0x405060), ("rgba", 0x10a0b0c0), ("argb", 0x80c0ffee), ("hue", 200), ("saturation", 0.4), ("lightness", 0.3),
                                          ("value", 0x99887766))] + [("blend", lambda o: o.blend(C("#0a141e80")))], looks, ctx.pick(2, 3))


def P25(ctx):
    B = bs()
    C = B.Color
    from .css_colors import NAMES
    names = {k: v for k, v in NAMES.items() if k != "rebeccapurple"}  # the SVG keywords

    def ngen():
        for n in sorted(names):
            for f in ("lower", "upper", "title", "spaced"):
                yield (n, f)
        yield ("transparent", "lower")
        yield ("transparent", "upper")

    def nfn(case, rec):
        n, f = case
        t = {"lower": n, "upper": n.upper(), "title": n.title(), "spaced": n}[f]
        if f == "spaced":
            for w in ("dark", "light", "medium", "pale", "deep", "hot"):
                if t.startswith(w) and len(t) > len(w):
                    t = w + " " + t[len(w):]
                    break
        want = names[n] + (255,) if n != "transparent" else (0, 0, 0, 0)
        both(t, want, rec)

    def both(t, want, rec, tol=0, opacity=None):
        c = C(t)
        rec.state(t)
        rec.step(2)
        rec.compared(2)
        rec.outcome(want)
        got = chan(c)
        if any(abs(g - w) > tol for g, w in zip(got, want)):
            rec.fail("text", "Color(%r) is %s, expected %s" % (t, got, want))
            return
        if opacity is not None and abs(got[3] - 255 * max(0.0, min(1.0, float(opacity)))) > 0.5 + 1e-9:
            rec.fail("text:alpha", "Color(%r) has alpha %d, expected the nearest to %s of 255" % (t, got[3], opacity))
        reread(c, rec)
        if not (c == t) or c != t:
            rec.fail("equal-text", "Color(%r) is not equal to its own text" % (t,))
        if C.parse(t) != int(c):
            rec.fail("parse", "Color.parse(%r) is %r, int(Color) %r" % (t, C.parse(t), int(c)))

    def reread(c, rec):
        want = chan(c)
        rec.compared(5)
        for how, f in (("hexa", lambda: C(c.hexa)), ("hex", lambda: C(c.hex)), ("str", lambda: C(str(c))), ("repr", lambda: eval(repr(c), {"Color": C})),
                       ("Color(Color)", lambda: C(c)), ("copy", lambda: copy(c)), ("rgba", lambda: C(rgba=c.rgba)), ("argb", lambda: C(argb=c.argb)),
                       ("int", lambda: C(rgba=int(c))), ("4 args", lambda: C(c.red, c.green, c.blue, c.alpha)),
                       ("keywords", lambda: C(red=c.red, green=c.green, blue=c.blue, alpha=c.alpha)),
                       ("rgb+opacity", lambda: C(c.rgb, c.opacity)), ("short keywords", lambda: C(r=c.red, g=c.green, b=c.blue, opacity=c.opacity))):
            d = f()
            if chan(d) != want or not (d == c and c == d) or d != c:
                rec.fail("write:" + how, "%s of %s reads as %s" % (how, want, chan(d)))
        if (c.hexa[1:], c.argb, c.rgba, c.rgb) != ("%02x%02x%02x%02x" % want, want[3] << 24 | want[0] << 16 | want[1] << 8 | want[2],
                                                 want[0] << 24 | want[1] << 16 | want[2] << 8 | want[3], want[0] << 16 | want[1] << 8 | want[2]):
            rec.fail("formats", "%s has hexa %s argb %x rgba %x rgb %x" % (want, c.hexa, c.argb, c.rgba, c.rgb))
        if (c.hex == c.hexa) != (want[3] != 255):
            rec.fail("hex", "%s has hex %s" % (want, c.hex))
        if not close(c.opacity, want[3] / 255.0, 1e-12):
            rec.fail("opacity", "%s has opacity %s" % (want, c.opacity))
    ctx.explore("keywords", ngen, nfn, bound="all 147 keywords and transparent, in four spellings")

    digits = "0123456789abcdef"

    def hgen():
        for d in itertools.product(digits, repeat=3):
            yield "#" + "".join(d)
        for d in itertools.product(digits if ctx.thorough else "05af9", repeat=4):
            yield "#" + "".join(d)
        for d in itertools.product(digits, repeat=2):
            for pos in range(4):
                for other in ("00", "ff", "7e"):
                    v = [other] * 4
                    v[pos] = "".join(d)
                    if pos < 3:
                        yield "#" + "".join(v[:3])
                    yield "#" + "".join(v)

    def hfn(t, rec):
        h = t[1:]
        if len(h) in (3, 4):
            h = "".join(x + x for x in h)
        want = tuple(int(h[i:i + 2], 16) for i in range(0, len(h), 2))
        want = want if len(want) == 4 else want + (255,)
        for s in (t, t.upper(), t[1:]):
            if chan(C(s)) != want:
                rec.fail("hex-text", "Color(%r) is %s, expected %s" % (s, chan(C(s)), want))
                return
        both(t, want, rec)
    ctx.explore("hex", hgen, hfn, bound="all 3-digit, 4-digit (quick: 5 digits per place) and every byte in every place of 6 and 8 digits")

    def h4fn(hi, rec):
        # every 4-digit value: the channels only
        for lo in range(256):
            t = "#%02x%02x" % (hi, lo)
            want = tuple(17 * int(x, 16) for x in t[1:])
            rec.step()
            rec.compared()
            if chan(C(t)) != want:
                rec.fail("hex-text", "Color(%r) is %s, expected %s" % (t, chan(C(t)), want))
        rec.state(hi)
        rec.outcome(hi >> 4)
    ctx.explore("four digits", lambda: range(256), h4fn, bound="all 65536 4-digit values")

    chs = ctx.pick([0, 1, 127, 255, 256, -10, 300], [0, 1, 17, 127, 128, 254, 255, 256, -1, -10, 300])
    als = [None, "0", "1", "0.5", ".25", "1.5", "-1", "0.001", "0.34"]
    seps = [("(", ", ", ")"), ("(", ",", ")"), ("( ", " , ", " )")]

    def clip(v):
        return max(0, min(255, v))

    def alpha(a):
        return 255 if a is None else int(math.floor(255 * max(0.0, min(1.0, float(a))) + 0.5))

    def rgen():
        for v in itertools.product(chs, repeat=3):
            for a in als:
                yield ("int", v, a)
        for v in itertools.product([0, 50, 100, 33.3, 110, -5], repeat=3):
            for a in als:
                yield ("pct", v, a)

    def rfn(case, rec):
        kind, v, a = case
        for o, s, c in seps:
            for name in ("rgb", "rgba"):
                if (a is None) != (name == "rgb") and s != ", ":
                    continue
                t = name + o + s.join(("%s" if kind == "int" else "%s%%") % x for x in v) + (s + a if a is not None else "") + c
                if kind == "int":
                    want = tuple(clip(x) for x in v) + (alpha(a),)
                else:
                    want = tuple(clip(int(math.floor(x * 2.55 + 0.5))) for x in v) + (alpha(a),)
                both(t, want, rec, tol=0 if kind == "int" and a in (None, "0", "1", "1.5", "-1") else 1, opacity=a)
    ctx.explore("rgb", rgen, rfn, bound="rgb()/rgba() with every triple of %d integers or 6 percentages, 8 alphas, 3 spacings" % len(chs))

    def lgen():
        for h in ctx.pick([0, 30, 60, 90, 120, 200, 240, 300, 359, 360, 480, -120, 840, -600, 12.5], list(range(-720, 1081, 15)) + [12.5, 359, 0.1]):
            for s in (0, 10, 50, 73.4, 100, 120, -10):
                for l in (0, 5, 19.62, 50, 66.67, 75, 100, 130, -1):
                    for a in (None, "0.34", "0"):
                        yield (h, s, l, a)

    def lfn(case, rec):
        h, s, l, a = case
        r = colorsys.hls_to_rgb((h / 360.0) % 1.0, max(0, min(1, l / 100.0)), max(0, min(1, s / 100.0)))
        want = tuple(int(255 * x + 1e-9) for x in r) + (alpha(a),)
        t = ("hsl(%s, %s%%, %s%%)" % (h, s, l)) if a is None else "hsla(%s,%s%%,%s%%,%s)" % (h, s, l, a)
        both(t, want, rec, tol=1, opacity=a)
    ctx.explore("hsl", lgen, lfn, bound="hsl()/hsla() grid of hues (also outside 0..360), saturations, lightnesses and alphas")

    def ints():
        for v in (0, 0xFF0000, 0x00FF00, 0x0000FF, 0x123456, 0xFFFFFF, 1, 0x800000):
            for o in (None, 0, 0.25, 0.5, 0.34, 1, 1.0):
                yield (v, o)

    def ifn(case, rec):
        v, o = case
        want = (v >> 16, v >> 8 & 255, v & 255, 255 if o is None else int(round(o * 255)))
        c = C(v) if o is None else C(v, o)
        rec.state(case)
        rec.step()
        rec.compared(2)
        rec.outcome(want)
        if chan(c) != want:
            rec.fail("int", "Color(%x, %s) is %s, expected %s" % (v, o, chan(c), want))
        t = "#%06x" % v
        d = C(t) if o is None else C(t, o)
        e = C(C(t)) if o is None else C(C(t), o)
        f = C(t, opacity=o) if o is not None else C(*want[:3])
        if not (c == d == e == f):
            rec.fail("constructors", "%s" % ((c, d, e, f),))
        reread(c, rec)
    ctx.explore("constructors", ints, ifn, bound="8 colours x 6 opacities through every constructor form")

    def pgen():
        pool = ["red", "#f00", "#ff0000ff", "rgb(255,0,0)", "hsl(0,100%,50%)", "#f008", "none", None, "black", "transparent", "#00000000", "lime", 0xFF0000]
        for a in pool:
            for b in pool:
                yield (a, b)

    def val(x):
        if x is None or x == "none":
            return None
        return {"red": "ff0000ff", "#f00": "ff0000ff", "#ff0000ff": "ff0000ff", "rgb(255,0,0)": "ff0000ff", "hsl(0,100%,50%)": "ff0000ff", "#f008": "ff000088",
                "black": "000000ff", "transparent": "00000000", "#00000000": "00000000", "lime": "00ff00ff", 0xFF0000: "ff0000ff"}[x]

    def pfn(case, rec):
        a, b = case
        x, y = C(a), C(b)
        w = val(a) == val(b)
        rec.state(case)
        rec.step()
        rec.compared(2)
        rec.outcome(w)
        if (x == y, y == x, not (x != y), not (y != x)) != (w,) * 4:
            rec.fail("equality", "Color(%r) == Color(%r) is %s, expected %s" % (a, b, x == y, w))
        if isinstance(b, str) and b != "none" and ((x == b) != w or (x != b) == w):
            rec.fail("equality", "Color(%r) == %r is %s, expected %s" % (a, b, x == b, w))
    ctx.explore("equality", pgen, pfn, bound="all pairs of 13 spellings")

    def near():
        for c in ((0, 0, 0, 0), (255, 255, 255, 255), (18, 52, 86, 120), (255, 0, 0, 0), (128, 127, 1, 254), (0, 0, 0, 255)):
            for i in range(4):
                for v in list(range(0, 256, ctx.pick(5, 1))) + [c[i] - 1, c[i] + 1, c[i] ^ 1, c[i] ^ 128]:
                    if 0 <= v <= 255:
                        yield (c, c[:i] + (v,) + c[i + 1:])

    def nearfn(case, rec):
        a, b = case
        x, y = C(*a), C(*b)
        w = a == b
        rec.state(case)
        rec.step()
        rec.compared(3)
        rec.outcome(w)
        t = "#%02x%02x%02x%02x" % b
        if (x == y, y == x, not (x != y), x == t, not (x != t)) != (w,) * 5:
            rec.fail("equality", "%s == %s is %s, expected %s" % (x, y, x == y, w))
    ctx.explore("near equality", near, nearfn, bound="6 colours and each with one channel at every (quick: fifth) value, also visible ones with no alpha")
    ctx.assumptions = ["hsl and percentages are compared to one step of 255", "the comma syntax of CSS colours; alpha as a number"]

    # what a text means does not depend on what was read or edited before
    def isc(c, w, rec, what):
        if c.value is None or chan(c) != w:
            rec.fail("history", "%s: the colour is %s, expected %s" % (what, chan(c), w))

    def setter(n, v):
        def f(c):
            setattr(c, n, v)
        return (n, f)
    again.explore(ctx, "histories", [("red", (255, 0, 0, 255)), ("#f00", (255, 0, 0, 255)), ("rgb(255,0,0)", (255, 0, 0, 255)), ("hsl(0,100%,50%)", (255, 0, 0, 255)), ("#12345678", (0x12, 0x34, 0x56, 0x78)),
                                     ("black", (0, 0, 0, 255)), ("rgba(100%,0%,0%,0.2)", (255, 0, 0, 51)), (0xFF0000, (255, 0, 0, 255))], C, isc,
                  [setter("red", 7), setter("alpha", 9), setter("opacity", 0.5), setter("hue", 120), setter("rgb", 0x010203), ("blend", lambda c: c.blend("blue", 0.5))], ctx.pick(4, 5))
    colour_histories(ctx, [(n, lambda o, n=n: getattr(o, n)) for n in ("hex", "hexa", "rgb", "rgba", "argb", "value")] + [("str", str), ("repr", repr), ("int", int), ("== red", lambda o: (o == "red", o == "#123456", o == C(o))), ("copy", lambda o: str(C(o)))])


def P26(ctx):
    B = bs()
    C = B.Color

    def clip(v):
        return int(max(0, min(255, v)))
    ops = []
    for ch in ("red", "green", "blue", "alpha"):
        for v in (0, 1, 127, 255, 256, -1, -5, 300):
            ops.append((ch, v))
    for v in (0.0, 0.25, 0.5, 1, 1.0, 0.999, -0.5, 2):
        ops.append(("opacity", v))
    for v in (0, 0x123456, 0xFFFFFF, 0xFF0000, 0x0000FF):
        ops.append(("rgb", v))
    for v in (0, 0x12345678, 0xFFFFFFFF, 0xFF000080, 0x000000FF):
        ops.append(("rgba", v))
        ops.append(("argb", v))
    ops += [("copy", 0), ("abs", 0), ("blend-opaque", 0), ("blend-clear", 0)]
    roots = ["#000", "#12345678", "#ffffff00", "rgba(1,2,3,1)"]

    def start(r):
        return {"#000": (0, 0, 0, 255), "#12345678": (0x12, 0x34, 0x56, 0x78), "#ffffff00": (255, 255, 255, 0), "rgba(1,2,3,1)": (1, 2, 3, 255)}[r]

    class St:
        pass

    def build(r):
        st = St()
        st.c = C(r)
        st.m = start(r)
        return st

    def apply(st, op, rec):
        n, v = op
        r, g, b, a = st.m
        if n in ("red", "green", "blue", "alpha"):
            i = ("red", "green", "blue", "alpha").index(n)
            m = list(st.m)
            m[i] = clip(v)
            st.m = tuple(m)
            setattr(st.c, n, v)
        elif n == "opacity":
            st.m = (r, g, b, clip(int(round(v * 255.0))))
            st.c.opacity = v
        elif n == "rgb":
            st.m = (v >> 16, v >> 8 & 255, v & 255, 255)
            st.c.rgb = v
        elif n == "rgba":
            st.m = (v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255)
            st.c.rgba = v
        elif n == "argb":
            st.m = (v >> 16 & 255, v >> 8 & 255, v & 255, v >> 24)
            st.c.argb = v
        elif n == "copy":
            old = st.c
            st.c = C(old)
            old.red = 77
            old.alpha = 3
        elif n == "abs":
            old = st.c
            st.c = abs(old)
            if chan(old) != st.m:
                rec.fail("abs-changes", "abs() changed a colour from %s to %s" % (st.m, chan(old)))
            st.m = (r, g, b, 255)
        elif n == "blend-opaque":
            st.c.blend(C("#0a141e"))
            st.m = (10, 20, 30, 255)
        elif n == "blend-clear":
            st.c.blend(C("#0a141e00"))

    def canon(st):
        return st.m

    def check(st, named, rec):
        c = st.c
        got = chan(c)
        rec.compared(8)
        rec.outcome(st.m)
        if got != st.m:
            rec.fail("channels", "Color(%r) after %s is %s, expected %s" % (named[0], named[1], got, st.m))
            return
        r, g, b, a = st.m
        want = {"rgb": r << 16 | g << 8 | b, "rgba": r << 24 | g << 16 | b << 8 | a, "argb": a << 24 | r << 16 | g << 8 | b, "hexa": "#%02x%02x%02x%02x" % st.m,
                "hex": ("#%02x%02x%02x%02x" % st.m) if a != 255 else "#%02x%02x%02x" % st.m[:3]}
        for k, w in want.items():
            if getattr(c, k) != w:
                rec.fail("read:" + k, "Color(%r) after %s has %s %r, expected %r" % (named[0], named[1], k, getattr(c, k), w))
        if not close(c.opacity, a / 255.0, 1e-12):
            rec.fail("read:opacity", "Color(%r) after %s has opacity %r" % (named[0], named[1], c.opacity))
        if chan(C(str(c))) != st.m or not (C(str(c)) == c) or int(c) & 0xFFFFFFFF != want["rgba"]:
            rec.fail("text", "Color(%r) after %s writes as %s" % (named[0], named[1], c))
    ctx.bfs("channel-writes", roots, ops, build, apply, canon, check, depth=ctx.pick(3, 4),
            bound="4 colours x all histories of up to %d of %d writes, equal colours merged" % (ctx.pick(3, 4), len(ops)))

    def kgen():
        for r, g, b in itertools.product((None, 0, 200, 256), repeat=3):
            for a in (None, ("alpha", 0), ("alpha", 128), ("opacity", 0.5), ("opacity", 1)):
                for base in (None, "#12345678", "red"):
                    yield (r, g, b, a, base)

    def kfn(case, rec):
        r, g, b, a, base = case
        kw = {k: v for k, v in zip(("red", "green", "blue"), (r, g, b)) if v is not None}
        if a:
            kw[a[0]] = a[1]
        m = {None: (0, 0, 0, 0), "#12345678": (0x12, 0x34, 0x56, 0x78), "red": (255, 0, 0, 255)}[base]
        w = tuple(o if v is None else clip(v) for v, o in zip((r, g, b), m)) + (m[3] if a is None else clip(a[1]) if a[0] == "alpha" else int(round(a[1] * 255)),)
        c = C(**kw) if base is None else C(base, **kw)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(w)
        if chan(c) != w:
            rec.fail("keywords", "Color(%r, %s) is %s, expected %s" % (base, kw, chan(c), w))
    ctx.explore("keywords", kgen, kfn, bound="all subsets of channel keywords x 3 base colours")

    def none(case, rec):
        n, v = case
        rec.state(case)
        rec.step()
        rec.compared()
        for text in (None, "none"):
            c = C(text)
            if n == "read":
                rec.outcome(v)
                if getattr(c, v) is not None:
                    rec.fail("none-read", "Color(%r).%s is %r" % (text, v, getattr(c, v)))
                continue
            try:
                setattr(c, n, v)
                rec.fail("none-write", "Color(%r).%s = %r accepted" % (text, n, v))
            except ValueError:
                rec.outcome("ValueError")
            if c.value is not None:
                rec.fail("none-changed", "failed write changed Color(%r)" % (text,))
    reads = ["red", "green", "blue", "alpha", "opacity", "rgb", "rgba", "argb", "hex", "hexa", "hue", "saturation", "lightness", "hsl", "luma", "luminance",
             "brightness", "blackness", "intensity"]
    ctx.explore("no-colour", lambda: [("read", r) for r in reads] + [(n, v) for n in ("red", "green", "blue", "alpha", "opacity", "hue", "saturation", "lightness")
                                                                   for v in (0, 1)], none, bound="every property and setter of the none colour")


def P27(ctx):
    B = bs()
    C = B.Color
    step = ctx.pick(17, 5)
    vals = list(range(0, 256, step)) + ([1, 254] if ctx.thorough else [1, 128, 254])

    def gen():
        for c in itertools.product(sorted(set(vals)), repeat=3):
            yield c

    def case_fn(rgb, rec):
        c = C(*rgb)
        r, g, b = [x / 255.0 for x in rgb]
        h, l, s = colorsys.rgb_to_hls(r, g, b)
        rec.state(rgb)
        rec.step()
        rec.compared(9)
        rec.outcome((max(rgb) == min(rgb), sorted(range(3), key=lambda i: rgb[i])))
        want = {"saturation": s, "lightness": l, "luma": .2126 * r + .7152 * g + .0722 * b, "luminance": .3 * r + .59 * g + .11 * b,
                "brightness": max(r, g, b), "blackness": 1 - max(r, g, b), "intensity": sum(rgb) / 768.0}
        for k, w in want.items():
            if not close(getattr(c, k), w, 1e-9):
                rec.fail("read:" + k, "Color%s.%s is %r, expected %r" % (rgb, k, getattr(c, k), w))
        dh = abs(c.hue - 360 * h) % 360
        if min(dh, 360 - dh) > 1e-7 or not -1e-9 <= c.hue <= 360 + 1e-9:
            rec.fail("read:hue", "Color%s.hue is %r, expected %r" % (rgb, c.hue, 360 * h))
        if (c.hue, c.saturation, c.lightness) != tuple(c.hsl):
            rec.fail("read:hsl", "Color%s.hsl is %s" % (rgb, c.hsl))
        if chan(c) != rgb + (255,):
            rec.fail("read-changes", "reading changed Color%s to %s" % (rgb, chan(c)))
        # writing back what was read
        for a in (255, 100):
            for n in ("hsl", "hue", "saturation", "lightness"):
                d = C(*(rgb + (a,)))
                setattr(d, n, getattr(d, n))
                rec.step()
                rec.compared()
                if any(abs(x - y) > 1 for x, y in zip(chan(d)[:3], rgb)) or d.alpha != a:
                    rec.fail("write-back:" + n, "Color%s: writing back %s gives %s" % (rgb + (a,), n, chan(d)))
    ctx.explore("read", gen, case_fn, bound="all colours with channels in a %d-value grid" % len(set(vals)))

    ops = [("hue", v) for v in (0, 60, 123.4, 240, 330, 360, -90, 480, 1000)] + [("saturation", v) for v in (0, 0.25, 0.5, 1.0)] + \
          [("lightness", v) for v in (0, 0.2, 0.5, 0.8, 1.0)] + [("hsl", v) for v in ((0, 1, .5), (120, .5, .25), (270, .3, .8), (500, 1, .5), (-30, .7, .4))]
    roots = [(255, 0, 0, 255), (10, 200, 60, 128), (0, 0, 0, 255), (128, 128, 128, 7), (60, 70, 200, 0)]

    def hgen():
        for r in roots:
            for d in range(1, ctx.pick(3, 4) + 1):
                for h in itertools.product(ops, repeat=d):
                    yield (r, h)

    def hfn(case, rec):
        r, h = case
        c = C(*r)
        for n, v in h:
            before = chan(c)
            bh, bl, bsat = colorsys.rgb_to_hls(*[x / 255.0 for x in before[:3]])
            t = {"hue": (v, bsat, bl), "saturation": (bh * 360, v, bl), "lightness": (bh * 360, bsat, v), "hsl": v}[n]
            setattr(c, n, v)
            rec.step()
            rec.compared()
            want = [255 * x for x in colorsys.hls_to_rgb((t[0] / 360.0) % 1.0, t[2], t[1])]
            if any(abs(x - y) > 1.01 for x, y in zip(chan(c)[:3], want)) or c.alpha != r[3]:
                rec.fail("write:" + n, "Color%s with %s = %s (after %s) is %s, expected %s" % (before, n, v, h, chan(c), [round(x) for x in want] + [r[3]]))
                return
        rec.state(chan(c))
        rec.outcome(len(h))
    ctx.explore("write", hgen, hfn, bound="5 colours x all histories of up to %d of %d hue/saturation/lightness writes" % (ctx.pick(3, 4), len(ops)))

    def dense():
        n = ctx.pick(8, 24)
        ls = [0.002, 0.01, 0.99, 0.998] + [i / n for i in range(n + 1)]
        ss = [0.002, 0.008, 0.015, 0.019, 0.03, 0.97, 0.995] + [i / n for i in range(n + 1)]
        for h in list(range(0, 360, ctx.pick(20, 6))) + [0.4, 1, 59, 61, 119, 121, 179.5, 299, 301, 359, 359.9]:
            for s in ss:
                for l in ls:
                    yield (h, s, l)

    def dfn(t, rec):
        h, s, l = t
        want = [255 * x for x in colorsys.hls_to_rgb(h / 360.0, l, s)]
        rec.state(t)
        rec.compared(2)
        rec.step(2)
        c = C(10, 200, 60, 77)
        c.hsl = t
        d = C("#fff")
        d.hsl = list(t)
        rec.outcome([sorted(range(3), key=lambda i: want[i])])
        for x, al in ((c, 77), (d, 255)):
            if any(abs(p - q) > 1.01 for p, q in zip(chan(x)[:3], want)) or x.alpha != al:
                rec.fail("hsl", "hsl %s gives %s, expected %s" % (t, chan(x), want))
    ctx.explore("every-hsl", dense, dfn, bound="hues x saturations x lightnesses, dense near both ends of each")

    def kgen():
        for base in (None, "red", "#12a4f780"):
            for h in (None, 0, 200):
                for s in (None, 0.5, 1.0):
                    for l in (None, 0.25, 0.5):
                        for short in (True, False):
                            yield (base, h, s, l, short)

    def kfn(case, rec):
        base, h, s, l, short = case
        names = ("h", "s", "l") if short else ("hue", "saturation", "lightness")
        kw = {n: v for n, v in zip(names, (h, s, l)) if v is not None}
        c = C(base, **kw) if base else C(**kw)
        d = C(base) if base else C()
        for n, v in zip(("hue", "saturation", "lightness"), (h, s, l)):
            if v is not None:
                cur = chan(d)
                setattr(d, n, v)
        rec.state(case)
        rec.step()
        rec.compared()
        rec.outcome(chan(d))
        if chan(c) != chan(d):
            rec.fail("keywords", "Color(%r, %s) is %s, setting them gives %s" % (base, kw, chan(c), chan(d)))
    ctx.explore("keywords", kgen, kfn, bound="all subsets of the hue, saturation and lightness keywords x 3 colours")
    ctx.assumptions = ["results are compared to one step of 255 per channel", "saturation and lightness between 0 and 1"]
    colour_histories(ctx, asked.attrs("hue", "saturation", "lightness", "hsl", "luma", "luminance", "brightness", "blackness", "intensity", "alpha"))


def P28(ctx):
    B = bs()
    C = B.Color
    ch = ctx.pick([0, 100, 255], [0, 50, 100, 200, 255])
    al = ctx.pick([0, 1, 128, 254, 255], [0, 1, 64, 128, 200, 254, 255])
    tops = [(r, g, b, a) for r, g, b in itertools.product(ch, repeat=3) for a in al]

    def gen():
        base = tops if ctx.thorough else tops[::5] + [(0, 0, 0, 0), (255, 255, 255, 255), (0, 0, 0, 255)]
        for a in tops:
            for b in base:
                yield (a, b)

    def over(a, b):
        x, y = a[3] / 255.0, b[3] / 255.0
        o = x + y * (1 - x)
        if o == 0:
            return b
        return tuple((p * x + q * y * (1 - x)) / o for p, q in zip(a[:3], b[:3])) + (o * 255.0,)

    def case_fn(case, rec):
        a, b = case
        A, Bc = C(*a), C(*b)
        w = over(a, b)
        rec.state(case)
        rec.step(2)
        rec.compared(2)
        rec.outcome((a[3], b[3]))
        forms = [("over", lambda: C(rgba=C.over(A, Bc)))]
        if a[0] == a[1]:
            forms += [("over-text", lambda: C(rgba=C.over(A.hexa, Bc.hexa))), ("text over", lambda: C(rgba=C.over(A.hexa, Bc))), ("over text", lambda: C(rgba=C.over(A, Bc.hexa)))]
        if a[3] == 255 and b[3] == 255:
            forms += [("over-int", lambda: C(rgba=C.over(A.rgb, Bc.rgb)))]
        if b[3] == 255:
            forms += [("over int", lambda: C(rgba=C.over(A, Bc.rgb))), ("text over int", lambda: C(rgba=C.over(A.hexa, Bc.rgb)))]

        def blend():
            d = C(Bc)
            d.blend(A)
            return d

        def blend_op():
            d = C(Bc)
            d.blend(C(*a[:3]), a[3] / 255.0)
            return d
        forms += [("blend", blend), ("blend-opacity", blend_op)]
        top = C(*a)

        def blend_given():
            d = C(Bc)
            top.alpha = 255 - a[3]
            d.blend(top, a[3] / 255.0)
            if top.alpha != 255 - a[3]:
                rec.fail("given", "blending %s with an opacity changed it into %s" % (a, chan(top)))
            top.alpha = a[3]
            return d
        forms += [("blend-opacity-given", blend_given)]
        if a[0] == a[1]:
            def blend_text():
                d = C(Bc)
                d.blend("rgb(%d, %d, %d)" % a[:3], a[3] / 255.0)
                return d
            forms += [("blend-opacity-text", blend_text)]
        for n, f in forms:
            g = chan(f())
            if a[3] == 0 and b[3] == 0:
                ok = g[3] == 0
            else:
                ok = all(abs(x - y) <= 1.01 for x, y in zip(g, w)) and abs(g[3] - w[3]) <= 0.5 + 1e-6
            if not ok:
                rec.fail(n, "%s over %s by %s is %s, expected %s" % (a, b, n, g, w))
            if a[3] == 255 and g != a:
                rec.fail("opaque:" + n, "opaque %s over %s is %s" % (a, b, g))
            if a[3] == 0 and g != b:
                rec.fail("clear:" + n, "transparent %s over %s is %s" % (a, b, g))
        if chan(A) != a or chan(Bc) != b or chan(top) != a:
            rec.fail("operands", "compositing %s over %s changed an operand" % (a, b))
    ctx.explore("over", gen, case_fn, bound="%d x %d colours with %d alphas" % (len(tops), len(tops) // 5, len(al)))

    cols = list(itertools.product(ctx.pick([0, 1, 128, 255], [0, 1, 64, 128, 254, 255]), repeat=3))

    def dgen():
        for a in cols:
            for b in cols:
                yield (a, b)

    def ref(a, b):
        rm = (a[0] + b[0]) / 2.0
        r, g, bl = [x - y for x, y in zip(a, b)]
        return (2 + rm / 256) * r * r + 4 * g * g + (2 + (255 - rm) / 256) * bl * bl

    def dfn(case, rec):
        a, b = case
        A, Bc = C(*a), C(*b)
        w = ref(a, b)
        rec.state(case)
        rec.step(2)
        rec.compared(4)
        rec.outcome(round(w))
        d = C.distance_sq(A, Bc)
        if abs(d - w) > 3 + 4e-3 * w:
            rec.fail("distance", "distance_sq(%s, %s) is %r, expected %r" % (a, b, d, w))
        if C.distance_sq(Bc, A) != d:
            rec.fail("symmetry", "distance_sq(%s, %s) is %r one way and %r the other" % (a, b, d, C.distance_sq(Bc, A)))
        if (d == 0) != (a == b) and w > 4:
            rec.fail("zero", "distance_sq(%s, %s) is %r" % (a, b, d))
        if not close(C.distance(A, Bc), math.sqrt(d), 1e-12) or A.distance_to(Bc) != C.distance(A, Bc) or d < 0:
            rec.fail("forms", "distance(%s, %s) is %r, distance_to %r, square %r" % (a, b, C.distance(A, Bc), A.distance_to(Bc), d))
        if C.distance_sq(A.hex, Bc.hex) != d or C.distance_sq(A.rgb, Bc.rgb) != d or A.distance_to(Bc.hex) != A.distance_to(Bc):
            rec.fail("operand-forms", "distance_sq(%s, %s) differs for text or int operands" % (a, b))
    ctx.explore("distance", dgen, dfn, bound="all pairs of %d colours" % len(cols))
    ctx.assumptions = ["composited channels are compared to one step of 255", "the red-mean metric of the cited definition, to the rounding of its integer arithmetic"]
    colour_histories(ctx, [("over", lambda o: C.over(o, C("#10203040"))), ("under", lambda o: C.over(C("#10203040"), o)), ("distance", lambda o: o.distance_to("#abcdef")), ("squared", lambda o: C.distance_sq(o, C("#00ff00")))])


def P29(ctx):
    B = bs()
    C = B.Color
    n = 256 ** 3
    import array
    import mmap
    seen = mmap.mmap(-1, n)  # one byte per colour, shared by the workers
    chunk = n // 1024

    def fill(k, rec):
        """Setting a byte is idempotent: the number of bytes set is the number of different colours."""
        distinct = C.distinct
        for i in range(k * chunk, (k + 1) * chunk):
            v = distinct(i).value
            if v & 255 != 255:
                rec.fail("alpha", "distinct(%d) is %s" % (i, distinct(i)))
            seen[v >> 8 & 0xFFFFFF] = 1
        rec.step(chunk)
        rec.state(k)
        rec.outcome(k)
    ctx.explore("fill", lambda: range(1024), fill, timeout=300, bound="every index below 2^24, opaque")

    def count(case, rec):
        total = seen[:].count(1)
        if total == 0:  # a replay of this case alone
            for k in range(1024):
                fill(k, rec)
            total = seen[:].count(1)
        rec.state(total)
        rec.step()
        rec.compared(n)
        rec.outcome(total)
        if total != n:
            first = array.array("l", [-1]) * n
            for i in range(n):
                v = C.distinct(i).value >> 8 & 0xFFFFFF
                if first[v] >= 0:
                    rec.fail("repeat", "distinct(%d) and distinct(%d) are both %s" % (first[v], i, C.distinct(i)))
                    return
                first[v] = i
    ctx.explore("all-different", lambda: [n], count, timeout=800, bound="all colours of the indices below 2^24 pairwise different (map of the 2^24 colours)")

    def again(i, rec):
        a, b = C.distinct(i), C.distinct(i)
        rec.state(i)
        rec.step(2)
        rec.compared()
        rec.outcome(chan(a))
        if chan(a) != chan(b) or a is b:
            rec.fail("deterministic", "distinct(%d) is %s and then %s" % (i, a, b))
    ctx.explore("again", lambda: range(0, 2000), again, bound="indices below 2000 asked twice")
