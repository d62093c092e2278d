"""P01 path-data grammar, P02 malformed data, P03 serialisation round trip, P04 builder calls."""
import itertools
import math
import re

from . import asked
from . import again
from . import large
from . import ref_path as R
from . import obs
from .core import close_pt


def sp():
    import svgio.path as m
    return m


# ---------------------------------------------------------------------------------------
# command alphabets: (letter, groups)
A1 = (5.0, 3.0, 30.0, 0, 1, 7.0, 4.0)

BASIC = [
    ("M", ((3, 4),)), ("m", ((2, -1),)),
    ("L", ((5, 1),)), ("l", ((-2, 3),)),
    ("H", ((7,),)), ("h", ((-3,),)), ("V", ((6,),)), ("v", ((2.5,),)),
    ("C", ((1, 5, 4, 6, 8, 2),)), ("c", ((1, 2, 3, -1, 4, 4),)),
    ("S", ((6, 6, 9, 1),)), ("s", ((2, 3, 5, -1),)),
    ("Q", ((4, 7, 6, 3),)), ("q", ((2, -3, 4, 1),)),
    ("T", ((2, 8),)), ("t", ((3, -2),)),
    ("A", ((5, 3, 30, 0, 1, 7, 4),)), ("a", ((2, 4, -20, 1, 0, 3, 2),)),
    ("Z", ()), ("z", ()),
]
REPEATS = [
    ("M", ((3, 4), (1, 1))), ("m", ((2, -1), (1, 2), (-3, 1))),
    ("L", ((5, 1), (0, 0), (2, 2))), ("l", ((-2, 3), (1, 1))),
    ("H", ((7,), (1,), (-2,))), ("h", ((-3,), (4,))), ("V", ((6,), (-1,))), ("v", ((2.5,), (1,), (1,))),
    ("C", ((1, 5, 4, 6, 8, 2), (0, 1, 1, 1, 2, 0))), ("c", ((1, 2, 3, -1, 4, 4), (1, 0, 2, 1, 3, 3))),
    ("S", ((6, 6, 9, 1), (1, 2, 3, 4))), ("s", ((2, 3, 5, -1), (1, 1, 2, 0))),
    ("Q", ((4, 7, 6, 3), (1, 1, 2, 0))), ("q", ((2, -3, 4, 1), (1, 1, 2, 2))),
    ("T", ((2, 8), (4, 4), (5, 1))), ("t", ((3, -2), (1, 1))),
    ("A", ((5, 3, 30, 0, 1, 7, 4), (2, 2, 0, 1, 1, 1, 1))),
    ("a", ((2, 4, -20, 1, 0, 3, 2), (1, 1, 0, 0, 0, 1, 1), (9, 9, 45, 1, 1, -2, 0))),
]
COMPLETE = [  # SVG 2 segment-completing close path
    ("L", (("z",),)), ("l", (("z",),)), ("C", ((1, 5, 4, 6, "z"),)), ("c", ((1, 2, 3, -1, "z"),)),
    ("Q", ((4, 7, "z"),)), ("q", ((2, -3, "z"),)), ("T", (("z",),)), ("t", (("z",),)),
    ("S", ((6, 6, "z"),)), ("s", ((2, 3, "z"),)), ("A", ((5, 3, 30, 0, 1, "z"),)), ("a", ((2, 4, -20, 1, 0, "z"),)),
    ("c", ((1, 2, 3, -1, 4, 4), (1, 2, 3, -1, "z"))), ("A", ((5, 3, 30, 0, 1, 7, 4), (5, 3, 30, 0, 1, "z"))),
]


def model(cmds):
    m = R.Machine()
    n = 0
    for letter, groups in cmds:
        m.command(letter, groups)
        if groups and groups[-1] and groups[-1][-1] == "z":
            m.command("Z", ())  # the z that completed the segment also closes the subpath
    return m


def render(cmds, style=0):
    """Text of a command list. style 0: minimal, 1: spaces everywhere, 2: commas, 3: newlines."""
    out = []
    for letter, groups in cmds:
        nums = [R.num(v) for g in groups for v in g]
        if style == 0:
            s = letter
            for i, t in enumerate(nums):
                if i and not t.startswith("-") and t != "z":
                    s += " "
                s += t
        elif style == 1:
            s = letter + "".join(" " + t for t in nums) + " "
        elif style == 2:
            s = letter + ",".join(t for t in nums if t != "z") + ("z" if "z" in nums else "") + " "
        else:
            s = "\n" + letter + "\t" + " ,\r\n".join(t for t in nums if t != "z") + (" z" if "z" in nums else "")
        out.append(s)
    return "".join(out)


def check_text(text, refs, rec):
    p = sp().Path(text)
    rec.compared(len(refs))
    d = obs.path_diff(p, refs)
    if d:
        rec.fail("differs", "Path(%r): %s" % (text, d), repro="from svgio.path import Path; print(list(Path(%r)))" % text)
    return p


def P01(ctx):
    M0 = ("M", ((1, 2),))
    full = BASIC + REPEATS

    def seq(depth, alpha):
        def g():
            for d in range(0, depth + 1):
                yield from itertools.product(alpha, repeat=d)
        return g

    def one(style_of):
        def f(case, rec):
            cmds = (M0,) + tuple(case)
            m = R.Machine()
            for letter, groups in cmds:
                m.command(letter, groups)
                if groups and groups[-1] and groups[-1][-1] == "z":
                    m.command("Z", ())
                rec.step()
            rec.state(m.canon())
            rec.outcome([s[0] for s in m.segs])
            check_text(render(cmds, style_of(case)), m.segs, rec)
        return f
    ctx.explore("structure", seq(ctx.pick(2, 3), full), one(lambda c: 0), bound="M + all sequences of up to %d of %d commands"
                % (ctx.pick(2, 3), len(full)))
    ctx.explore("structure-deep", seq(ctx.pick(3, 4), BASIC), one(lambda c: (len(c) + 1) % 4),
                bound="M + all sequences of up to %d of the %d single-group commands" % (ctx.pick(3, 4), len(BASIC)))
    red = [c for c in BASIC if c[0] in "mlhCsqTtZz"]
    ctx.explore("structure-deeper", seq(ctx.pick(4, 6), red), one(lambda c: 0),
                bound="M + all sequences of up to %d of %d commands" % (ctx.pick(4, 6), len(red)))

    # segment-completing close path
    def comp():
        for a in [()] + [(x,) for x in BASIC]:
            for c in COMPLETE:
                for b in [()] + [(x,) for x in BASIC]:
                    yield a + (c,) + b
    for st in (0, 1, 3):
        ctx.explore("completing-close-%d" % st, comp, one(lambda c, st=st: st),
                    bound="one command before and after each completing close")

    # number spelling x separator at every adjacent argument position of every command
    NUMS = [("0", 0.0), ("7", 7.0), ("-3", -3.0), ("+4", 4.0), (".5", .5), ("-.5", -.5), ("+.25", .25),
            ("1.5", 1.5), ("-2.75", -2.75), ("1e1", 10.0), ("2E-1", .2), ("-1.5e+1", -15.0), (".5e1", 5.0),
            ("007", 7.0), ("12.50", 12.5), ("0.000001", 1e-6), ("1e-7", 1e-7), ("123456.789", 123456.789), ("-0", 0.0),
            ("1E+2", 100.0)]
    if not ctx.thorough:
        NUMS = [n for n in NUMS if n[0] not in ("007", "12.50", "-0", "1e1", "7")]
    SEPS = [" ", ",", " , ", ", ", " ,", "\n", "\t", "\r\n", "\x0c", "  ", ""]

    def legal(a, sep, b):
        if sep:
            return True
        if b[0] in "+-":
            return True
        if b[0] == "." and ("." in a or "e" in a.lower()):
            return True
        return False
    LET = [l for l in "MmLlHhVvCcSsQqTtAa"]

    def spell():
        for letter in LET:
            n = R.ARGC[letter.upper()]
            groups = 3 if n <= 2 else 2
            base = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0][:n]
            if n == 7:
                base = [11.0, 12.0, 30.0, 0, 1, 6.0, 7.0]
            total = n * groups
            for pos in range(total - 1):
                if n == 7 and (pos % 7 in (2, 3, 4) or pos % 7 == 3):
                    continue  # flags have their own exploration
                for a in NUMS:
                    for b in NUMS:
                        if n == 7 and (pos % 7 == 0 and (a[1] == 0 or b[1] == 0 or a[1] < 0 or b[1] < 0)):
                            continue
                        if n == 7 and pos % 7 == 6 and b[1] <= 0:
                            continue
                        if n == 7 and pos % 7 == 1 and a[1] <= 0:
                            continue
                        for sep in SEPS:
                            if legal(a[0], sep, b[0]):
                                yield (letter, groups, pos, a, sep, b)

    def spell_case(case, rec):
        letter, groups, pos, a, sep, b = case
        n = R.ARGC[letter.upper()]
        base = [1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0][:n] if n != 7 else [11.0, 12.0, 30.0, 0, 1, 6.0, 7.0]
        vals = base * groups
        toks = [R.num(v) for v in vals]
        vals[pos], vals[pos + 1] = a[1], b[1]
        toks[pos], toks[pos + 1] = a[0], b[0]
        text = ""
        for i, t in enumerate(toks):
            if i == 0:
                text += t
            elif i == pos + 1:
                text += sep + t
            else:
                text += " " + t
        lead = "" if len(sep) != 1 else sep if sep != "," else " "
        text = "M1,2" + lead + letter + lead + text + lead
        m = R.Machine()
        m.command("M", ((1.0, 2.0),))
        m.command(letter, [vals[i * n:(i + 1) * n] for i in range(groups)])
        rec.state((letter, pos, a[0], b[0]))
        rec.step(len(toks))
        rec.outcome(letter)
        check_text(text, m.segs, rec)
    ctx.explore("spelling", spell, spell_case,
                bound="%d number spellings x %d separators at every adjacent argument pair of every command"
                      % (len(NUMS), len(SEPS)))

    # arc flags
    FS = [" ", ",", "", "\n", " , "]

    def flags():
        for letter in "Aa":
            for f1 in "01":
                for f2 in "01":
                    for s1, s2, s3 in itertools.product(FS, repeat=3):
                        if s1 == "":
                            continue  # rotation number must be terminated
                        for x in ("5", "-5", ".5", "+5", "-.5e1", "10", "01"):
                            for reps in (1, 2, 3):
                                for sep in (" ", ","):
                                    yield (letter, f1, f2, s1, s2, s3, x, reps, sep)

    def flag_case(case, rec):
        letter, f1, f2, s1, s2, s3, x, reps, sep = case
        body = "4,3 20%s%s%s%s%s%s,6" % (s1, f1, s2, f2, s3, x)
        text = "M1,2" + letter + sep.join([body] * reps) + "L1,1"
        m = R.Machine()
        m.command("M", ((1.0, 2.0),))
        m.command(letter, [(4, 3, 20, int(f1), int(f2), float(x), 6)] * reps)
        m.command("L", ((1.0, 1.0),))
        rec.state(case)
        rec.step(reps + 2)
        rec.outcome((f1, f2))
        check_text(text, m.segs, rec)
    ctx.explore("arc-flags", flags, flag_case, bound="all flag values x separators x following-number spellings x 1..3 repetitions")

    # repetition is the same as writing the letter again
    def reps():
        for letter in LET:
            for k in range(1, ctx.pick(6, 12)):
                for nxt in BASIC:
                    yield (letter, k, nxt)
    G = {1: (3.0,), 2: (3.0, -4.0), 4: (1.0, 2.0, 4.0, -3.0), 6: (1.0, 2.0, 3.0, 4.0, 6.0, -5.0),
         7: (6.0, 4.0, 15.0, 1, 0, 3.0, 5.0)}

    def rep_case(case, rec):
        letter, k, nxt = case
        n = R.ARGC[letter.upper()]
        gs = [tuple(v * (1 + 0.5 * i) if n != 7 or j > 4 else v for j, v in enumerate(G[n])) for i in range(k)]
        cmds = (M0, (letter, tuple(gs)), nxt)
        m = model(cmds)
        rec.state(m.canon())
        rec.step(k + 1)
        rec.outcome((letter, nxt[0]))
        check_text(render(cmds, k % 4), m.segs, rec)
    ctx.explore("repetition", reps, rep_case, bound="1..%d implicit repetitions of every command followed by every command"
                % (ctx.pick(6, 12) - 1))

    # many commands, many groups, many subpaths
    def many():
        for n in large.counts(ctx, 1025):
            for letter in LET:
                for how in ("letters", "groups", "subpaths", "closed"):
                    if n < 300 or letter in "LlCaT":
                        yield (letter, n, how)

    def many_case(case, rec):
        letter, n, how = case
        k = R.ARGC[letter.upper()]
        gs = [tuple(v * (1 + (i % 7)) if k != 7 or j > 4 else v for j, v in enumerate(G[k])) for i in range(n)]
        if how == "groups":
            cmds = (M0, (letter, tuple(gs)), ("l", ((1.0, 2.0),)))
        elif how == "letters":
            cmds = (M0,) + tuple((letter, (g,)) for g in gs)
        else:
            cmds = (M0,) + tuple(x for i, g in enumerate(gs) for x in ((letter, (g,)), ("z", ()) if how == "closed" else ("mM"[i % 2], ((2.0 + i % 5, 3.0),))))
        m = model(cmds)
        rec.state((letter, how, n))
        rec.step(n)
        rec.outcome((letter, how))
        check_text(render(cmds, n % 4), m.segs, rec)
    ctx.explore("many", many, many_case, timeout=60, bound="every command up to %d times and around powers of two to 1024, as letters, groups, subpaths and closed" % (ctx.pick(20, 70) - 1))

    # digits before and behind the point, zeros in front, exponents
    def digits():
        for a in range(0, 21):
            for b in range(0, 21):
                if a or b:
                    for e in ("", "e0", "E1", "e-2", "e+03", "e12", "E-015"):
                        yield (a, b, e)
        for z in range(1, 30):
            for e in ("", "e2", "E-20", "e+20"):
                yield (-z, 3, e)

    def digit_case(case, rec):
        a, b, e = case
        num = ("0" * -a + "12" if a < 0 else "9876543210123456789012345"[:a]) + ("." + "123456789012345678901234"[:b] if b else "") + e
        rec.state(case)
        rec.step(4)
        rec.outcome(e)
        v = float(num)
        for text, cmds in (("M%s,1L2 %s-%s,3z" % (num, num, num), (("M", ((v, 1.0),)), ("L", ((2.0, v), (-v, 3.0))), ("z", ()))),
                           ("M1,2h%sv-%sH%s" % (num, num, num), (("M", ((1.0, 2.0),)), ("h", ((v,),)), ("v", ((-v,),)), ("H", ((v,),)))),
                           ("m%s-%sl%s,%sz" % ((num,) * 4), (("m", ((v, -v),)), ("l", ((v, v),)), ("z", ()))),
                           ("M0,0q%s,%s,%s,%st%s,1" % ((num,) * 5), (("M", ((0.0, 0.0),)), ("q", ((v, v, v, v),)), ("t", ((v, 1.0),))))):
            check_text(text, model(cmds).segs, rec)
    # what a text means does not depend on what was read or edited before
    texts = [(("M", ((3.0, 4.0),)), ("L", ((5.0, 6.0),)), ("z", ())), (("M", ((3.0, 4.0),)),), (("m", ((3.0, 4.0),)), ("l", ((5.0, 6.0),)), ("z", ())),
             (("M", ((3.0, 4.0),)), ("C", ((1.0, 2.0, 5.0, 7.0, 6.0, 6.0),)), ("S", ((1.0, 2.0, 8.0, 9.0),))), (("M", ((3.0, 4.0),)), ("Q", ((1.0, 2.0, 5.0, 7.0),)), ("t", ((1.0, 2.0),))),
             (("M", ((3.0, 4.0),)), ("A", ((5.0, 3.0, 30.0, 0, 1, 7.0, 8.0),))), (("M", ((3.0, 4.0),)), ("h", ((5.0,),)), ("v", ((1.0,),)), ("M", ((3.0, 4.0),)), ("z", ()))]
    srcs = [("".join(l + ",".join("%g" % v for g in gs for v in g) for l, gs in cmds), model(cmds).segs) for cmds in texts]

    def same(p, segs, rec, what):
        d = obs.path_diff(p, segs)
        if d:
            rec.fail("history", "%s: %s" % (what, d))

    def endpoint(p):
        p[-1].end *= "translate(5,6)"

    def times(p):
        p *= "scale(2)"

    def first(p):
        p[0].end.x = 99.0

    def drop(p):
        del p[-1]
    again.explore(ctx, "histories", srcs, sp().Path, same,
                  [("end", endpoint), ("*=", times), ("first", first), ("del", drop), ("reverse", lambda p: p.reverse()), ("+=", lambda p: p.parse("l1,1z")), ("arcs", lambda p: p.approximate_arcs_with_cubics())], ctx.pick(4, 5))
    ctx.explore("digits", digits, digit_case, bound="0 to 20 digits before x 0 to 20 behind the point x 7 exponents; up to 29 zeros in front")
    ctx.assumptions = ["numbers are compared to 1e-9 relative; arcs by five points to 1e-7",
                       "the reference interpreter mc/ref_path.py is a correct reading of SVG 2 chapter 9 and B.2"]


# ---------------------------------------------------------------------------------------
def P02(ctx):
    TOK = ["M", "m", "L", "h", "V", "C", "S", "q", "t", "A", "a", "Z", "1", "-2", ".5", "0", "x", "#", "e", "-", "."]
    REDUCED = ["M", "l", "H", "v", "c", "s", "Q", "T", "A", "a", "z", "1", "0", "-2.5", "x"]

    def strict_segments(tokens, lenient=True):
        """All prefixes' segments: run the reference machine over well-formed command groups and
        stop at the first token that the grammar does not allow. Returns (segments, complete)."""
        m = R.Machine()
        i = 0
        n = len(tokens)

        def isnum(t):
            try:
                float(t)
                return t not in ("x", "e", "-", ".", "#")
            except ValueError:
                return False
        while i < n:
            c = tokens[i]
            if len(c) != 1 or c.upper() not in R.ARGC:
                return m.segs, False
            if not m.segs and c not in "Mm":
                return m.segs, None  # fragment: outside the statement
            i += 1
            k = R.ARGC[c.upper()]
            if k == 0:
                m.command(c, ())
                continue
            got = 0
            while True:
                j = i
                args = []
                ok = True
                for a in range(k):
                    if j >= n:
                        ok = False
                        break
                    t = tokens[j]
                    if c.upper() == "A" and a in (3, 4):
                        if t not in ("0", "1"):
                            # compact flags: a longer digit string may split; treated by the
                            # caller's alphabet, which has no such token after a flag
                            ok = False
                            break
                    elif not isnum(t):
                        # SVG 2 draft: z may stand for the remaining coordinate pair(s)
                        if t in ("z", "Z") and c not in "MmHhVv" and (k - a) % 2 == 0 and (k != 7) or (
                                t in ("z", "Z") and k == 7 and a == 5):
                            args += ["z", "z"] * ((k - a) // 2)
                            ok = "z"
                            break
                        ok = False
                        break
                    args.append(float(t))
                    j += 1
                if ok is True:
                    m.group(c if (got == 0 or c not in "Mm") else ("L" if c == "M" else "l"), tuple(args))
                    i = j
                    got += 1
                    continue
                if ok == "z" and (got == 0 or j > i):
                    m.group(c, tuple(args))
                    i = j  # the z itself is then a command
                    got += 1
                    break
                if j > i:  # a group was started but not completed
                    return m.segs, False
                if got == 0:
                    return m.segs, False
                break  # next command (or garbage, reported by the outer loop)
        return m.segs, True

    import signal

    def check(tokens, sep, rec):
        text = sep.join(tokens)
        refs, complete = strict_segments(tokens)
        rec.step(len(tokens))
        if complete is None:
            rec.skip("fragment without initial moveto")
            try:
                sp().Path(text)
            except Exception:
                pass
            return
        rec.state((tuple(s[0] for s in refs), complete, tokens[-1:]))
        p = sp().Path()
        err = None
        try:
            p.parse(text)
        except (ValueError, TypeError, AttributeError, IndexError) as e:
            err = e
        rec.outcome((complete, type(err).__name__))
        rec.compared()
        segs = list(p)
        if complete:
            if err is not None:
                rec.fail("rejects-valid", "Path().parse(%r) raised %r but the data conforms to the grammar" % (text, err))
                return
            d = obs.path_diff(segs, refs)
            if d:
                rec.fail("differs", "Path().parse(%r): %s" % (text, d))
            return
        # malformed: whatever was accepted must be exactly the leading well-formed segments
        if len(segs) > len(refs):
            rec.fail("invents", "Path().parse(%r) (malformed) produced %d segments %s; only %d precede the error" % (
                text, len(segs), [obs.snap(s) for s in segs][-1:], len(refs)))
            return
        d = obs.path_diff(segs, refs[:len(segs)])
        if d:
            rec.fail("invents", "Path().parse(%r) (malformed): %s" % (text, d))
            return
        if err is None and len(segs) != len(refs):
            rec.fail("drops", "Path().parse(%r) silently dropped %d well-formed segment(s) before the error" % (
                text, len(refs) - len(segs)))
        # the constructor must agree: an error is an error there too
        try:
            q = list(sp().Path(text))
            e2 = None
        except (ValueError, TypeError, AttributeError, IndexError) as e:
            e2 = e
        if (e2 is None) != (err is None):
            rec.fail("constructor", "Path(%r) and Path().parse disagree: %r vs %r" % (text, e2, err))

    def gen(alpha, depth, prefix):
        def g():
            for d in range(0, depth + 1):
                for t in itertools.product(alpha, repeat=d):
                    yield prefix + t
        return g
    d1 = ctx.pick(4, 5)
    # the verdict does not depend on what was parsed before
    toks = [("M", "3", "4"), ("M", "3", "4", "L", "5", "6", "z"), ("M", "3", "4", "L"), ("M", "3", "4", "H"), ("M", "3", "4", "V", "z"), ("M", "3", "4", "C", "1", "2", "z"), ("M", "3", "4", "L", "1"),
            ("M", "3", "4", "A", "1", "1", "0", "2", "1", "5", "5"), ("M", "3", "4", "C", "1", "2", "3", "4"), ("M", "3", "4", "L", "z"), ("M", "3", "4", "z", "5"), ("M", "3", "4", "Q", "1", "2", "x")]

    def verdicts(*seq):
        srcs = []
        for tk in seq:
            refs, complete = strict_segments(tk)
            srcs.append((" ".join(tk), tuple(refs) if complete else again.Refused))
        return srcs

    def same(p, refs, rec, what):
        d = obs.path_diff(p, refs)
        if d:
            rec.fail("history", "%s: %s" % (what, d))

    def into(text):
        p = sp().Path()
        p.parse(text)
        return p
    again.explore(ctx, "histories", verdicts(*toks), sp().Path, same, [], ctx.pick(4, 5))
    again.explore(ctx, "histories-parse", verdicts(*toks), into, same, [("parse", lambda p: p.parse("L1,1z"))], ctx.pick(2, 3))
    ctx.explore("tokens-from-empty", gen(TOK, ctx.pick(3, 4), ()), lambda c, r: check(c, " ", r), timeout=5,
                bound="all token strings up to %d over %d tokens" % (ctx.pick(3, 4), len(TOK)))
    ctx.explore("tokens-after-move", gen(REDUCED, d1, ("M", "3", "4")), lambda c, r: check(c, " ", r), timeout=5,
                bound="M 3 4 + all token strings up to %d over %d tokens" % (d1, len(REDUCED)))

    # truncation / corruption of every valid command at every position
    def corrupt():
        full = [c for c in BASIC + REPEATS if c[0] not in "zZ"]
        bad = ["", "x", "#", "-", ".", "e", "M", "l", "z", "2", "1 1", "%", "1e", "$5"]
        for a in full:
            toks = [a[0]] + [R.num(v) for g in a[1] for v in g]
            for pos in range(1, len(toks) + 1):
                for b in bad:
                    for mode in ("replace", "insert", "truncate"):
                        if mode == "replace" and pos == len(toks):
                            continue
                        for follow in ([], ["L", "9", "9"], ["z"]):
                            yield (tuple(toks), pos, b, mode, tuple(follow))

    def corrupt_case(case, rec):
        toks, pos, b, mode, follow = case
        toks = list(toks)
        bt = b.split()
        if mode == "replace":
            toks[pos:pos + 1] = bt
        elif mode == "insert":
            toks[pos:pos] = bt
        else:
            toks = toks[:pos] + bt
        toks = ["M", "1", "2"] + toks + list(follow)
        # tokens that are not single grammar tokens make the rest unreadable
        if any(t in ("1e", "$5") for t in toks):
            i = [n for n, t in enumerate(toks) if t in ("1e", "$5")][0]
            toks = toks[:i] + (["1", "e"] if toks[i] == "1e" else ["$"]) + toks[i + 1:]
        # compact flags: a flag position accepts the first digit of a longer number
        check(tuple(toks), " ", rec) if flags_ok(toks) else rec.skip("digit string in flag position")

    def flags_ok(toks):
        # avoid tokens such as '30' landing on a flag position, where '3' is the error but
        # '10' would be two flags: the strict tokeniser above does not split digits
        i = 0
        while i < len(toks):
            if toks[i] in "Aa" and len(toks[i]) == 1:
                j = i + 1
                k = 0
                while j < len(toks) and (toks[j][0] in "+-.0123456789"):
                    if k % 7 in (3, 4) and toks[j] not in ("0", "1") and toks[j][0] in "01":
                        return False
                    j += 1
                    k += 1
                i = j
            else:
                i += 1
        return True
    ctx.explore("corrupt-one", corrupt, corrupt_case, timeout=5,
                bound="every command x every token position x %d corruptions x replace/insert/truncate" % 14)
    ctx.assumptions = ["comma placement is treated leniently (any run of commas and blanks separates), as the library documents no stricter rule",
                       "data not starting with a moveto are fragments, which the library permits; they must only terminate"]


# ---------------------------------------------------------------------------------------
def path_variants():
    """Commands that make awkward paths: alphabet for round trips."""
    return [
        ("M", ((3, 4),)), ("m", ((0, 0),)),
        ("L", ((5, 1),)), ("l", ((-2.125, 1e-7),)),
        ("H", ((7,),)), ("V", ((-6,),)),
        ("C", ((1, 5, 4, 6, 8, 2),)), ("c", ((0, 0, 3, -1, 4, 4),)),
        ("S", ((6, 6, 9, 1),)), ("s", ((2, 3, 5, -1),)),
        ("Q", ((4, 7, 6, 3),)), ("q", ((0, 0, 4, 1),)),
        ("T", ((2, 8),)), ("t", ((3, -2),)),
        ("A", ((5, 3, 30, 0, 1, 7, 4),)), ("a", ((2.123456789, 4.987654321, -20.123456789, 1, 0, 3, 2),)),
        ("Z", ()), ("z", ()),
        ("L", ((123456.789012, -98765.4321098),)),
        ("A", ((123456.789, 100000.123, 12.5, 1, 1, 50000, 1),)),
    ]


def norm(segs):
    return segs


def P03(ctx):
    alpha = path_variants()

    def gen(depth, al):
        def g():
            for d in range(0, depth + 1):
                yield from itertools.product(al, repeat=d)
        return g
    modes = [(rel, sm) for rel in (None, True, False) for sm in (None, True, False)]

    def tolfor(segs):
        big = 1.0
        for s in segs:
            for v in s[1:]:
                if isinstance(v, tuple):
                    big = max(big, abs(v[0]), abs(v[1]))
        return big

    def written(cmds, segs, rel, sm):
        """The letters of the commands in the form asked for; None where rounding decides about the smooth form."""
        asked = []
        for letter, groups in cmds:
            for i in range(max(1, len(groups))):
                asked.append(letter if i == 0 or letter not in "mM" else "L" if letter == "M" else "l")
        if len(asked) != len(segs):
            return [None] * len(segs)
        out, prev = [], None
        for letter, s in zip(asked, segs):
            k = s[0]
            if k in "QC" and k:
                gap = None
                c, start = s[2], s[1]
                if prev is not None and prev[0] == k:
                    ref = (2 * prev[-1][0] - prev[-2][0], 2 * prev[-1][1] - prev[-2][1])
                else:
                    ref = start
                gap = max(abs(c[0] - ref[0]), abs(c[1] - ref[1]))
                if sm is None:
                    short = letter in "sStT"
                elif not sm:
                    short = False
                else:
                    short = None if 0 < gap < 1e-9 else gap == 0
                k = None if short is None else {"Q": "T", "C": "S"}[k] if short else k
            prev = s
            low = letter.islower() if rel is None else rel
            out.append(k if k is None else k.lower() if low else k.upper())
        return out

    def case_fn(case, rec):
        cmds = (("M", ((1, 2),)),) + tuple(case)
        text = render(cmds, 0)
        S = sp()
        p = S.Path(text)
        before = obs.snap_path(p)
        rec.state(before)
        kinds = [s[0] for s in before]
        rec.outcome(kinds)
        big = tolfor(before)
        tol = 1e-8 * max(1.0, 1.0)
        outs = {}
        for rel, sm in modes:
            if (rel, sm) == (None, None):
                d = p.d()
            else:
                d = p.d(relative=rel, smooth=sm)
            rec.step()
            form = re.findall("[A-DF-Za-df-z]", d)
            want = written(cmds, before, rel, sm)
            rec.compared()
            if len(form) == len(want) and any(w is not None and f != w for f, w in zip(form, want)):
                rec.fail("form(relative=%s,smooth=%s)" % (rel, sm), "Path(%r).d(relative=%s, smooth=%s) = %r, expected the commands %s" % (text, rel, sm, d, want))
            if d in outs:
                continue
            outs[d] = 1
            q = S.Path(d)
            rec.compared(len(before))
            diff = roundtrip_diff(p, q, big)
            if diff:
                rec.fail("d(relative=%s,smooth=%s)" % (rel, sm), "Path(%r).d(relative=%s, smooth=%s) = %r re-reads differently: %s" % (
                    text, rel, sm, d, diff))
        if str(p) not in outs:
            diff = roundtrip_diff(p, S.Path(str(p)), big)
            if diff:
                rec.fail("str", "str(Path(%r)) = %r re-reads differently: %s" % (text, str(p), diff))
        if not obs.same_snap(before, obs.snap_path(p), 0.0):
            rec.fail("mutates", "serialising Path(%r) changed it" % text)

    def roundtrip_diff(p, q, big):
        a, b = list(p), list(q)
        if len(a) != len(b):
            return "%d segments became %d (%s -> %s)" % (len(a), len(b), "".join(map(obs.kind, a)), "".join(map(obs.kind, b)))
        tol = 1e-9
        for i, (s, t) in enumerate(zip(a, b)):
            k = obs.kind(s)
            if k != obs.kind(t):
                return "segment %d: %s became %s" % (i, k, obs.kind(t))
            if k == "A":
                if not close_pt(s.start, t.start, 1e-9 * 1) or not close_pt(s.end, t.end, 1e-9):
                    if max(abs(s.start.x - t.start.x), abs(s.start.y - t.start.y), abs(s.end.x - t.end.x),
                           abs(s.end.y - t.end.y)) > 1e-9 * big:
                        return "segment %d: arc endpoints %s %s -> %s %s" % (i, s.start, s.end, t.start, t.end)
                if s.sweep == 0:
                    continue
                for u in (0.0, 0.25, 0.5, 0.75, 1.0):
                    x, y = s.point(u), t.point(u)
                    if max(abs(x[0] - y[0]), abs(x[1] - y[1])) > 5e-6 * max(1.0, s.rx, s.ry, big * 1e-2):
                        return "segment %d: arc point(%s) %s -> %s" % (i, u, tuple(x), tuple(y))
                continue
            for u, v in zip(obs.snap(s)[1:], obs.snap(t)[1:]):
                if u is None or v is None:
                    if u is not v and not (k == "M" and i == 0):
                        return "segment %d: point %s -> %s" % (i, u, v)
                elif max(abs(u[0] - v[0]), abs(u[1] - v[1])) > 1e-9 * big:
                    return "segment %d (%s): point %s -> %s" % (i, k, u, v)
        return None
    ctx.explore("round-trip", gen(ctx.pick(3, 4), alpha), case_fn,
                bound="M + all sequences of up to %d of %d commands, 9 output modes each" % (ctx.pick(3, 4), len(alpha)))
    curves = [c for c in alpha if c[0] in "mCcSsQqTtZ"]
    ctx.explore("round-trip-smooth", gen(ctx.pick(4, 5), curves), case_fn,
                bound="M + all sequences of up to %d of %d curve commands, 9 output modes each" % (ctx.pick(4, 5), len(curves)))

    ctx.explore("round-trip-large", lambda: large.cases(ctx, 1025), lambda c, rec: case_fn(large.cmds(*c)[1:], rec), timeout=60,
                bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 1024, 9 output modes" % (ctx.pick(20, 70) - 1))

    # arcs: parameter grid
    rads = [0.5, 1, 3.3333333333, 7.123456789, 1000.5]
    rots = [0, 30, 45, 90, 135, -20, 12.3456789, 180, 359]
    ends = [(4, 0), (0, 3), (-2.5, 1.25), (3, 3), (1e-3, 0), (400, -300)]

    def arcs():
        for rx in rads:
            for ry in rads:
                for rot in rots:
                    for e in ends:
                        for f in range(4):
                            yield (("A", ((rx, ry, rot, f & 1, f >> 1, e[0] + 1, e[1] + 2),)),)
    ctx.explore("round-trip-arcs", arcs, case_fn, bound="arc parameter grid, all flags, 9 output modes")

    # which way round is decided by little
    def halves():
        for k in range(1, 10):
            for m in (1.0, 3.7):
                e = m * 10.0 ** -k
                for turn, (x, y) in ((0, (10, 0)), (90, (0, 10)), (0, (0, -10)), (30, (10 * math.cos(math.pi / 6), 5.0))):
                    for ratio in (1.0, 0.4):
                        rx, ry = 5 * (1 + e), 5 * (1 + e) * ratio
                        if turn == 0 and x == 0:
                            rx, ry = ry, rx
                        for f in range(4):
                            yield (("A", ((rx, ry, turn, f & 1, f >> 1, 1 + x, 2 + y),)),)
    ctx.explore("round-trip-half-turns", halves, case_fn, bound="arcs of nearly half a turn, to either side by 1 to 1e-4, all flags, 9 output modes")

    # programmatically made segments and fragments that start mid-way
    def smooths():
        pts = [(0, 0), (2, 1), (1, 3)]
        for prev in "LCQAMZ":
            for k in "CQ":
                for c in [(0, 0), (2, 1), (3, 4), (4, 2), (3, -1)]:
                    for flag in (True, False):
                        for rel in (True, False):
                            yield (prev, k, c, flag, rel)

    def smooth_case(case, rec):
        prev, k, c, flag, rel = case
        S = sp()
        p = S.Path("M1,0")
        cur = (2, 1)
        seg = {"L": S.Line((1, 0), cur), "C": S.CubicBezier((1, 0), (0, 1), (1, 0), cur),
               "Q": S.QuadraticBezier((1, 0), (1, 0), cur), "A": S.Arc((1, 0), 3, 2, 10, 0, 1, cur),
               "M": S.Move((1, 0), cur), "Z": S.Close((1, 0), (1, 0))}[prev]
        p.append(seg)
        cur = seg.end
        if k == "C":
            s = S.CubicBezier(cur, c, (5, 5), (6, 2), smooth=flag, relative=rel)
        else:
            s = S.QuadraticBezier(cur, c, (6, 2), smooth=flag, relative=rel)
        p.append(s)
        rec.state(case)
        rec.outcome((prev, k))
        for r, sm in modes:
            rec.step()
            d = p.d(relative=r, smooth=sm)
            rec.compared()
            diff = roundtrip_diff(p, S.Path(d), 10)
            if diff:
                rec.fail("built", "path built as %r: d(relative=%s, smooth=%s) = %r re-reads differently: %s" % (
                    obs.snap_path(p), r, sm, d, diff))
    ctx.explore("round-trip-built", smooths, smooth_case, bound="every predecessor kind x control position x flags")

    # curves whose control is close to, but not at, the reflection of the one before
    def nearly():
        for k in range(6, 31, 2):
            for e in (2.0 ** -k, -2.0 ** -k):
                for ox, oy in ((1, 0), (0, 1), (1, 1), (1, -1)):
                    for kind in "QC":
                        for flag in (True, False):
                            for rel in (True, False):
                                yield (kind, (ox * e, oy * e), flag, rel)

    def nearly_case(case, rec):
        kind, off, flag, rel = case
        S = sp()
        cur, ref = (2.0, 1.0), (3.0, 3.0)
        c = (ref[0] + off[0], ref[1] + off[1])
        p = S.Path("M1,0")
        if kind == "C":
            p.append(S.CubicBezier((1, 0), (0, 1), (1, -1), cur))
            p.append(S.CubicBezier(cur, c, (5, 5), (6, 2), smooth=flag, relative=rel))
        else:
            p.append(S.QuadraticBezier((1, 0), (1, -1), cur))
            p.append(S.QuadraticBezier(cur, c, (6, 2), smooth=flag, relative=rel))
        before = obs.snap_path(p)
        rec.state(case)
        rec.outcome((kind, flag, rel))
        for r, sm in modes:
            d = p.d(relative=r, smooth=sm)
            rec.step()
            rec.compared()
            got = obs.snap_path(S.Path(d))
            if [x[0] for x in got] != [x[0] for x in before] or not all(
                    close_pt(u, v, 1e-10) for x, y in zip(got[1:], before[1:]) for u, v in zip(x[1:], y[1:]) if isinstance(u, tuple)):
                return rec.fail("nearly smooth", "path built as %r: d(relative=%s, smooth=%s) = %r re-reads as %r" % (before, r, sm, d, got))
    ctx.explore("nearly-smooth", nearly, nearly_case, bound="curve pairs 2^-6 to 2^-30 from smooth x directions x flags, 9 output modes")

    # two curves that would continue each other smoothly, with nothing or something between them
    def apart():
        from_start = [(2, 1), (0, 0), (1, 3)]
        between = ["", "l", "ll", "m", "mm", "ml", "z", "a", "aa", "lz", "q", "c", "qc", "lm"]
        for first in "QC":
            for mid in between:
                for second in "QC":
                    for ctrl in range(3):
                        for flag in (True, False):
                            for rel in (True, False):
                                yield (first, mid, second, ctrl, flag, rel)

    def apart_case(case, rec):
        first, mid, second, ctrl, flag, rel = case
        S = sp()
        P, Q = (4.0, 2.0), (9.0, -3.0)
        c = (3.0, 5.0)
        r = (2 * P[0] - c[0], 2 * P[1] - c[1])
        start = P if mid in ("z", "lz") else (0.0, 0.0)
        segs = [S.Move(None, start)]
        segs.append(S.QuadraticBezier(start, c, P, smooth=flag, relative=rel) if first == "Q" else
                    S.CubicBezier(start, (1.0, 1.0), c, P, smooth=flag, relative=rel))
        cur = P
        for i, k in enumerate(mid):
            to = P if i == len(mid) - 1 else Q
            if k == "l":
                segs.append(S.Line(cur, to))
            elif k == "m":
                segs.append(S.Move(cur, to))
            elif k == "z":
                segs.append(S.Close(cur, start))
            elif k == "a":
                segs.append(S.Arc(cur, 7, 7, 0, 0, 1, to))
            elif k == "q":
                segs.append(S.QuadraticBezier(cur, c, to, smooth=False))
            elif k == "c":
                segs.append(S.CubicBezier(cur, (1.0, 8.0), c, to, smooth=False))
            cur = to
        k = (r, P, (8.0, 8.0))[ctrl]
        segs.append(S.QuadraticBezier(P, k, (7.0, 7.0), smooth=flag, relative=rel) if second == "Q" else
                    S.CubicBezier(P, k, (6.0, 0.0), (7.0, 7.0), smooth=flag, relative=rel))
        p = S.Path(*segs)
        before = obs.snap_path(p)
        rec.state(case)
        rec.outcome((first, mid, second))
        for r_, sm in modes:
            rec.step()
            rec.compared()
            d = p.d(relative=r_, smooth=sm)
            diff = roundtrip_diff(p, S.Path(d), 10)
            if diff:
                rec.fail("apart", "%s: d(relative=%s, smooth=%s) = %r re-reads differently: %s" % (before, r_, sm, d, diff))
        if not obs.same_snap(before, obs.snap_path(p), 0.0):
            rec.fail("mutates", "serialising %s changed it" % (before,))
    ctx.explore("round-trip-apart", apart, apart_case, bound="curve, 14 ways to stay at or come back to its end, curve; all kinds, controls, flags and modes")

    # numbers of every magnitude: digits, exponents of one, two and three figures, exponents ending in zero
    mags = [m * 10.0 ** e for m in (1, -1.5, 2.25, 1.23456789012) for e in ctx.pick((-30, -20, -15, -10, -9, -5, -4, -1, 0, 5, 10, 11, 12, 15, 19, 20, 30), range(-31, 32))]
    mags += [100.0, 1200.0, 1000000.0, 0.1, 10.5, 0.0]

    def magnitudes():
        for v in mags:
            for k in range(8):
                yield (v, k)

    def mag_case(case, rec):
        v, k = case
        S = sp()
        c = [(v, -1.0), (0.0, v), (v, v), (-v, 0.5 * v)]
        c = [tuple(x) for x in c]
        kind, order = "LQCM"[k % 4], (c if k < 4 else c[::-1])
        a, b, d, e = order
        if kind == "L":
            p = S.Path(S.Move(None, a), S.Line(a, b), S.Line(b, d), S.Line(d, e), S.Close(e, a))
        elif kind == "Q":
            p = S.Path(S.Move(None, a), S.QuadraticBezier(a, b, d), S.QuadraticBezier(d, b, e))
        elif kind == "C":
            p = S.Path(S.Move(None, a), S.CubicBezier(a, b, d, e))
        else:
            p = S.Path(S.Move(None, a), S.Move(a, b), S.Line(b, e))
        big = max(abs(v), 1.0)
        rec.state(case)
        for r, sm in modes:
            rec.step()
            rec.compared()
            t = p.d(relative=r, smooth=sm)
            diff = roundtrip_diff(p, S.Path(t), big)
            if diff:
                rec.fail("magnitude", "%s: d(relative=%s, smooth=%s) = %r re-reads differently: %s" % (obs.snap_path(p), r, sm, t, diff))
    ctx.explore("round-trip-magnitudes", magnitudes, mag_case, bound="%d numbers of magnitudes 1e-31 to 1e31 in every place x 9 modes" % len(mags))

    # a segment on its own
    def alone():
        for k in "MLZQCA":
            for flag in (True, False):
                for r in (None, True, False):
                    for given in (True, False):
                        for start in ((1.0, 2.0), (0.0, 0.0), (-3.5, 7.0)):
                            yield (k, flag, r, given, start)

    def alone_case(case, rec):
        k, flag, r, given, s = case
        S = sp()
        seg = {"M": lambda: S.Move(s, (4, 6), relative=flag), "L": lambda: S.Line(s, (4, 6), relative=flag), "Z": lambda: S.Close(s, s, relative=flag),
               "Q": lambda: S.QuadraticBezier(s, (2, 7), (4, 6), relative=flag, smooth=False),
               "C": lambda: S.CubicBezier(s, (2, 7), (5, 9), (4, 6), relative=flag, smooth=False),
               "A": lambda: S.Arc(s, 5, 3, 30, 0, 1, (4, 6), relative=flag)}[k]()
        kw = {} if r is None else {"relative": r}
        t = seg.d(seg.start, **kw) if given else seg.d(**kw)
        rec.state(case)
        rec.step(2)
        rec.compared(3)
        for how, text in (("d", "M %s %s" % (seg.start, t)), ("str", str(seg))):
            p = S.Path(text)
            diff = roundtrip_diff([seg], list(p)[1:], 10)
            if diff and not (how == "d" and not given and r):
                rec.fail("segment:" + how, "%r: %s of %r re-reads differently: %s" % (case, how, text, diff))
        low = bool(flag if r is None else r) and given
        if t[0].islower() != low:
            rec.fail("segment form", "%r: d gives %r" % (case, t))
    ctx.explore("segments", alone, alone_case, bound="every kind of segment x its own form x form asked for x current point given or not")
    ctx.assumptions = ["coordinates carry 12 significant digits in path data; comparison is 1e-9 of the largest coordinate (1e-6 of the radius for points inside arcs)"]
    asked.paths(ctx, "asked", [("d(%s, %s)" % (r, s), lambda p, r=r, s=s: p.d(relative=r, smooth=s)) for r in (None, False, True) for s in (None, False, True)] + [("str", str)])
    asked.segments(ctx, "asked-segments", [("d(%s)" % r, lambda s, r=r: s.d(current_point=s.start, relative=r)) for r in (None, False, True)], kinds="MLZQCA")


# ---------------------------------------------------------------------------------------
def P04(ctx):
    """Builder calls are equivalent to parsing the same commands."""
    OPS = [
        ("move", ((3, 4),)), ("move", ((3, 4), (1, 1), (0, 2))),
        ("line", ((5, 1),)), ("line", ((5, 1), (2, 2), (7, 0))), ("line", ("z",)),
        ("horizontal", (7,)), ("horizontal", (7, 1, 4)), ("vertical", (6,)), ("vertical", (6, -1, 2)),
        ("horizontal_rel", (2,)), ("horizontal_rel", (2, 3)), ("vertical_rel", (-2,)), ("vertical_rel", (2, 3, 1)),
        ("cubic", ((1, 5), (4, 6), (8, 2))), ("cubic", ((1, 5), (4, 6), (8, 2), (0, 1), (1, 1), (2, 0))),
        ("cubic", ((1, 5), (4, 6), "z")),
        ("smooth_cubic", ((6, 6), (9, 1))), ("smooth_cubic", ((6, 6), (9, 1), (1, 2), (3, 4))), ("smooth_cubic", ((6, 6), "z")),
        ("quad", ((4, 7), (6, 3))), ("quad", ((4, 7), (6, 3), (1, 1), (2, 0))), ("quad", ((4, 7), "z")),
        ("smooth_quad", ((2, 8),)), ("smooth_quad", ((2, 8), (4, 4), (5, 1))), ("smooth_quad", ("z",)),
        ("arc", (5, 3, 30, 0, 1, (7, 4))), ("arc", (5, 3, 30, 1, 0, (7, 4), 2, 2, 0, 1, 1, (1, 1))),
        ("arc", (5, 3, 30, 1, 1, "z")),
        ("closed", ()), ("move", ("z",)),
    ]
    W = {"move": 1, "line": 1, "cubic": 3, "smooth_cubic": 2, "quad": 2, "smooth_quad": 1, "horizontal": 1, "vertical": 1,
         "horizontal_rel": 1, "vertical_rel": 1, "arc": 6}
    L = {"move": "M", "line": "L", "cubic": "C", "smooth_cubic": "S", "quad": "Q", "smooth_quad": "T", "horizontal": "H",
         "vertical": "V", "horizontal_rel": "h", "vertical_rel": "v", "arc": "A"}

    def to_model(m, op):
        name, args = op
        if name == "closed":
            m.command("Z", ())
            return
        w = W[name]
        first = True
        for i in range(0, len(args), w):
            flat = []
            for a in args[i:i + w]:
                if a == "z":
                    flat += list(m.z) if name == "move" else ["z"]
                elif isinstance(a, tuple):
                    flat += list(a)
                else:
                    flat.append(a)
            letter = L[name]
            if name == "move" and not first:
                letter = "L"
            m.group(letter, tuple(flat))
            first = False

    def apply(p, op, kw):
        name, args = op
        kw = dict(kw)
        if name.endswith("_rel"):
            name = name[:-4]
            kw["relative"] = True
        elif name in ("horizontal", "vertical"):
            kw = {}
        conv = lambda a: tuple(a) if isinstance(a, tuple) else a
        r = getattr(p, name)(*[conv(a) for a in args], **kw)
        return r

    def gen(depth):
        def g():
            for d in range(1, depth + 1):
                for ops in itertools.product(range(len(OPS)), repeat=d):
                    for kw in ((0, 1) if d <= 2 else (0,)):
                        yield (ops, kw)
            if ctx.thorough:
                few = [i for i, o in enumerate(OPS) if o[0] not in [q[0] for q in OPS[:i]] or "z" in o[1]]
                for ops in itertools.product(few, repeat=depth + 1):
                    yield (ops, 0)
        return g

    def case_fn(case, rec):
        ids, kw = case
        S = sp()
        m = R.Machine()
        m.command("M", ((1, 2),))
        p = S.Path()
        p.move((1, 2))
        for i in ids:
            to_model(m, OPS[i])
            r = apply(p, OPS[i], {"relative": True} if kw else {})
            if r is not p:
                rec.fail("chain:%s" % OPS[i][0], "%s() does not return the path" % OPS[i][0])
            rec.step()
        rec.state(m.canon())
        rec.outcome([s[0] for s in m.segs])
        rec.compared(len(m.segs))
        d = obs.path_diff(p, m.segs)
        if d:
            rec.fail("differs:" + OPS[ids[-1]][0], "after move((1,2)) and %s: %s" % ([OPS[i] for i in ids], d))
            return
        bad = obs.linkage(p)
        if bad:
            rec.fail("linkage", "after %s: %s" % ([OPS[i] for i in ids], bad))
        if not close_pt(p.current_point, m.cur):
            rec.fail("current_point", "current_point %s, expected %s" % (p.current_point, m.cur))
        if not close_pt(p.z_point, m.z):
            rec.fail("z_point", "z_point %s, expected %s" % (p.z_point, m.z))
        if not close_pt(p.first_point, (1, 2)):
            rec.fail("first_point", "first_point %s" % (p.first_point,))
        # written as built: every group of a relative call is relative, of any other call absolute
        low = [False]
        for i in ids:
            name, args = OPS[i]
            if name == "closed":
                low.append(bool(kw))
            else:
                low += [name.endswith("_rel") or bool(kw and name not in ("horizontal", "vertical"))] * (len(args) // W[name])
        letters = re.findall("[A-DF-Za-df-z]", p.d())
        if [c.islower() for c in letters] != low:
            rec.fail("form", "after %s%s: %s" % ([OPS[i] for i in ids], " in relative form" if kw else "", p.d()))
    ctx.explore("builder", gen(4), case_fn, bound="all sequences of up to 4 of %d builder calls%s" % (len(OPS), ", and of 5 of one call of each kind" if ctx.thorough else ""))

    # z stands for the subpath's start wherever a point is expected
    befores = {"M1,2": (1, 2), "M1,2L5,6": (1, 2), "M1,2L5,6M7,4": (7, 4), "M1,2L5,6M7,4L9,9": (7, 4), "M1,2C3,3 4,5 6,6zM8,1Q2,2 3,0": (8, 1), "M1,2L5,6z": (1, 2),
               "M1,2L5,6M7,4zL2,2": (7, 4), "m1,2l5,6m7,4 1,1": (13, 12)}

    def with_z():
        for text in befores:
            for name, n in (("move", 1), ("line", 1), ("line", 2), ("quad", 2), ("quad", 4), ("smooth_quad", 1), ("smooth_quad", 2), ("cubic", 3), ("cubic", 6),
                            ("smooth_cubic", 2), ("smooth_cubic", 4), ("arc", 6), ("arc", 12)):
                for which in itertools.product((None, "z", "Z"), repeat=n if name != "arc" else n // 6):
                    if any(which):
                        yield (text, name, which)

    def z_case(case, rec):
        text, name, which = case
        S = sp()
        pts = [(3, 9), (4, -1), (-2, 5), (6, 6.5), (0, 1), (8, 3)]
        args, plain = [], []
        for w, q in zip(which, pts):
            if name == "arc":
                args += [5, 3, 30, 0, 1]
                plain += [5, 3, 30, 0, 1]
            args.append(w or q)
            plain.append(befores[text] if w else q)
        p, q = S.Path(text), S.Path(text)
        r = getattr(p, name)(*args)
        getattr(q, name)(*plain)
        rec.state(case)
        rec.outcome(name)
        rec.step(2)
        rec.compared()
        if r is not p or not obs.same_snap(obs.snap_path(p), obs.snap_path(q), 1e-9):
            rec.fail("z:" + name, "Path(%r).%s(%s) adds %r, expected %r" % (text, name, args, list(p)[len(S.Path(text)):], list(q)[len(S.Path(text)):]))
    ctx.explore("builder-z", with_z, z_case, bound="every drawing method with every choice of its points left to z, after %d paths" % len(befores))

    # appending path text is the same as parsing the concatenation
    def concat():
        al = BASIC + COMPLETE[:4]
        for a in al:
            for b in al:
                for how in ("parse", "iadd", "add", "append-each"):
                    yield (a, b, how)

    def concat_case(case, rec):
        a, b, how = case
        S = sp()
        t1, t2 = "M1,2" + render((a,)), render((b,))
        m = model((("M", ((1, 2),)), a, b))
        p = S.Path(t1)
        if how == "parse":
            p.parse(t2)
        elif how == "iadd":
            p += t2
        elif how == "add":
            p = p + t2
        else:
            p = S.Path()
            for s in S.Path(t1 + t2):
                p.append(s)
        rec.state((m.canon(), how))
        rec.outcome(how)
        rec.step(2)
        rec.compared()
        d = obs.path_diff(p, m.segs)
        if d:
            rec.fail("concat:" + how, "Path(%r) %s %r: %s" % (t1, how, t2, d))
    ctx.explore("incremental", concat, concat_case, bound="every pair of commands split between two parses")

    # the points of interest of any path, also of fragments and nothing
    S = sp()
    made = [lambda: S.Move((3, 4)), lambda: S.Move((7, 7), (3, 5)), lambda: S.Line(None, (5, 6)), lambda: S.Line((1, 1), (5, 6)), lambda: S.Close(),
            lambda: S.Close((2, 2), (8, 8)), lambda: S.QuadraticBezier((1, 2), (3, 9), (6, 6)), lambda: S.CubicBezier(None, (3, 9), (5, -1), (6, 2)),
            lambda: S.Arc((0, 0), 5, 3, 30, 0, 1, (4, 6))]

    def landmarks():
        for d in range(0, ctx.pick(4, 5)):
            for ids in itertools.product(range(len(made)), repeat=d):
                yield ids

    def landmark_case(ids, rec):
        p = S.Path([made[i]() for i in ids])
        segs = list(p)
        pt = lambda q: None if q is None else (float(q[0]), float(q[1]))
        snap = obs.snap_path(p)
        moves = [s for s in segs if obs.kind(s) == "M"]
        want = {"first_point": None, "current_point": None, "z_point": None, "smooth_point": None}
        if segs:
            last = segs[-1]
            want["first_point"] = pt(segs[0].start if segs[0].start is not None else segs[0].end)
            want["current_point"] = e = pt(last.end)
            want["z_point"] = pt((moves or segs[:1])[-1].end)
            c = {"Q": lambda: last.control, "C": lambda: last.control2}.get(obs.kind(last), lambda: last.end)()
            want["smooth_point"] = None if e is None else (2 * e[0] - c[0], 2 * e[1] - c[1])
        rec.state(ids)
        rec.outcome(want)
        rec.step()
        for k in sorted(want):
            got = pt(getattr(p, k))
            rec.compared()
            if (got is None) != (want[k] is None) or got is not None and not close_pt(got, want[k]):
                rec.fail("landmark:" + k, "%s of %s is %s, expected %s" % (k, snap, got, want[k]))
        pts = [pt(q) for s in segs for q in s if q is not None]
        if None not in [q for s in segs for q in s]:
            rec.compared()
            if [pt(q) for q in p.as_points()] != pts:
                rec.fail("landmark:as_points", "as_points of %s is %s, expected %s" % (snap, [pt(q) for q in p.as_points()], pts))
        if obs.snap_path(p) != snap:
            rec.fail("landmark:changed", "asking %s for its points changed it" % (snap,))
    ctx.explore("landmarks", landmarks, landmark_case, bound="all lists of up to %d of 9 segments with and without start: first, current, subpath start and smooth point" % ctx.pick(3, 4))
    asked.paths(ctx, "asked", asked.attrs("first_point", "current_point", "z_point", "smooth_point") + [("segments", asked.path_points)])
