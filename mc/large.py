"""Large inputs: long paths, many subpaths. Commands in the form of ref_path."""
KINDS = ("lines", "mixed", "arcs", "subpaths", "closed", "moves", "smooth", "repeated")


def counts(ctx, top, low=None):
    """Every number up to a limit, and those around powers of two beyond."""
    out = list(range(1, low or ctx.pick(20, 70))) + [n + d for n in (32, 64, 100, 128, 256, 512, 1000, 1024) for d in (-1, 0, 1)]
    return sorted(set(n for n in out if n <= top))


def cmds(kind, n):
    """The commands of a path of about n segments (or n subpaths)."""
    def at(i):
        return (float((i * 7) % 11), float((i * 5) % 13) + i % 3)
    out = [("M", ((1.0, 2.0),))]
    if kind in ("lines", "repeated"):
        out += [("L", (at(i + 1),)) for i in range(n)]
        if kind == "repeated":
            out[1:] = [("L", tuple(at(i + 1) for i in range(n)))]
    elif kind == "arcs":
        out += [("A", ((5.0 + i % 3, 3.0, 10.0 * (i % 9), i % 2, i // 2 % 2) + at(i + 1),)) for i in range(n)]
    elif kind == "mixed":
        for i in range(n):
            p = at(i + 1)
            q, r = (p[0] + 3, p[1] - 2), (p[0] - 1, p[1] + 4)
            out.append([("L", (p,)), ("Q", (q + p,)), ("C", (q + r + p,)), ("l", (p,)), ("A", ((6.0, 4.0, 15.0, i % 2, 0) + p,)), ("H", ((p[0],),)), ("c", (q + r + p,))][i % 7])
    elif kind == "smooth":
        for i in range(n):
            p = at(i + 1)
            q, r = (p[0] + 3, p[1] - 2), (p[0] - 1, p[1] + 4)
            out.append([("C", (q + r + p,)), ("S", (r + p,)), ("S", (q + p,)), ("Q", (q + p,)), ("T", (p,)), ("T", (p,))][i % 6])
    elif kind in ("subpaths", "closed"):
        for i in range(n):
            if i:
                out.append(("Mm"[i % 2], (at(i),)))
            out += [("L", (at(i + 2),)), ("Q", ((3.0, -1.0 - i % 5) + at(i + 4),))][:1 + i % 2]
            if kind == "closed" or i % 3 == 0:
                out.append(("z", ()))
    elif kind == "moves":
        out += [("M", (at(i),)) for i in range(n)] + [("L", ((4.0, 4.0),))]
    return tuple(out)


def cases(ctx, top, kinds=KINDS, low=None):
    for k in kinds:
        for n in counts(ctx, top, low):
            yield (k, n)
