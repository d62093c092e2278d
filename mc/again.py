"""Histories of making: what a text, a number or a factory means does not depend on what was made, refused or edited before."""


class Refused:
    """Marks a source that has to be refused."""


def explore(ctx, name, sources, make, check, edits, depth, timeout=10.0, refusal=(ValueError, TypeError, AttributeError, IndexError, SyntaxError)):
    """All programs of up to `depth` steps that make an object of one of the sources or edit one made before.

    sources: list of (source, expected), expected is Refused if making it must raise.
    check(object, expected, rec, what) fails if the object is not what its source says; only objects never edited are checked.
    edits: list of (name, function of the object)."""
    def programs():
        def grow(prog, made, n):
            if prog and prog[-1][0] == "new":
                yield tuple(prog)
            if n == 0:
                return
            for i, s in enumerate(sources):
                for p in grow(prog + [("new", i)], made + [s[1] is not Refused], n - 1):
                    yield p
            if n > 1:  # an edit at the end shows nothing new
                for j, ok in enumerate(made):
                    if ok:
                        for k in range(len(edits)):
                            for p in grow(prog + [("edit", j, k)], made, n - 1):
                                yield p
        return grow([], [], depth)

    def fn(prog, rec):
        objs = []
        done = []
        rec.state(prog)
        for act in prog:
            rec.step()
            if act[0] == "new":
                source, want = sources[act[1]]
                done.append("%r" % (source,))
                try:
                    o = make(source)
                    err = None
                except refusal as e:
                    o, err = None, e
                if (err is not None) != (want is Refused):
                    rec.fail("accepted" if err is None else "refused", "after %s: %r is %s" % (", ".join(done[:-1]) or "nothing", source, "accepted" if err is None else "refused: %r" % (err,)))
                    return
                objs.append([o, want, want is not Refused])
            else:
                n, f = edits[act[2]]
                done.append("%s of number %d" % (n, act[1] + 1))
                objs[act[1]][2] = False
                try:
                    f(objs[act[1]][0])
                except refusal:
                    pass  # such as one more removal from an empty path
        rec.outcome(tuple(a[0] for a in prog))
        for i, (o, want, clean) in enumerate(objs):
            if clean:
                rec.compared()
                check(o, want, rec, "after %s, number %d" % (", ".join(done), i + 1))
        made = [o for o, w, c in objs if o is not None]
        if len(set(map(id, made))) != len(made):
            rec.fail("same", "after %s: the same object was made twice" % ", ".join(done))

    ctx.explore(name, programs, fn, timeout=timeout, bound="all programs of up to %d of making one of %d sources or one of %d edits to what was made" % (depth, len(sources), len(edits)))
