"""The document tree against an independent tree model.

The oracle is the tree the case was generated from (class T below): it is written to XML by this file, loaded by
svgio, and compared node by node. Nothing of svgio is used to produce the expected values.

P40 loading, P41 saving, P42 ids, P43 navigation, P44 inheritance, P45 building, P46 embedded images, P47 path elements.
"""
import base64
import io
import itertools
import os
import shutil
import tempfile
from xml.etree import ElementTree as ET
from xml.sax.saxutils import escape, quoteattr

from . import asked
from . import again
from . import core
from . import large
from . import obs
from . import ref_path

SVGNS = "http://www.w3.org/2000/svg"
XLINK = "http://www.w3.org/1999/xlink"
EXT = "urn:ext"
EXT2 = "http://www.w3.org/2000/svg2"  # begins like the SVG namespace
XMLNS = "http://www.w3.org/XML/1998/namespace"


def nd():
    import svgio.nodes as m
    return m


def bs():
    import svgio.basic as m
    return m


# -- model -----------------------------------------------------------------------------
class T:
    """One element: tag without the SVG namespace ({ns}name for other namespaces), attributes, text, tail, children."""
    __slots__ = ("tag", "attrs", "text", "tail", "kids", "parent")

    def __init__(self, tag, attrs=None, kids=(), text=None, tail=None):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.text = text
        self.tail = tail
        self.kids = []
        self.parent = None
        for k in kids:
            self.add(k)

    def add(self, k):
        k.parent = self
        self.kids.append(k)
        return k

    def walk(self):
        yield self
        for k in self.kids:
            for n in k.walk():
                yield n

    def canon(self, tail=True):
        return (self.tag, tuple(sorted(self.attrs.items())), self.text or "", (self.tail or "") if tail else "",
                tuple(k.canon() for k in self.kids))

    def shape(self):
        return (self.tag, tuple(k.shape() for k in self.kids))


PRE = {XLINK: "xlink", EXT: "e", EXT2: "e2", XMLNS: "xml"}


def qname(name):
    if name.startswith("{"):
        ns, loc = name[1:].split("}")
        return "%s:%s" % (PRE[ns], loc)
    return name


def to_xml(t, root=True, prefix=""):
    """XML text of a model tree; prefix is the prefix bound to the SVG namespace ('' = default namespace)."""
    tag = qname(t.tag)
    if prefix and not t.tag.startswith("{"):
        tag = "%s:%s" % (prefix, tag)
    decl = ""
    if root:
        decl = ' xmlns%s="%s" xmlns:xlink="%s" xmlns:e="%s" xmlns:e2="%s"' % (":" + prefix if prefix else "", SVGNS, XLINK, EXT, EXT2)
    attrs = "".join(" %s=%s" % (qname(k), quoteattr(v, {"\n": "&#10;", "\t": "&#9;"})) for k, v in t.attrs.items())
    body = escape(t.text or "") + "".join(to_xml(k, False, prefix) for k in t.kids)
    tail = "" if root else escape(t.tail or "")
    if not body:
        return "<%s%s%s/>%s" % (tag, decl, attrs, tail)
    return "<%s%s%s>%s</%s>%s" % (tag, decl, attrs, body, tag, tail)


CLASSES = {
    "svg": "SVG", "g": "Group", "defs": "Defs", "symbol": "Symbol", "marker": "Marker", "use": "Use", "style": "Style",
    "script": "Script", "a": "Hyperlink", "text": "Text", "tspan": "TSpan", "path": "Path", "line": "Line", "rect": "Rect",
    "circle": "Circle", "ellipse": "Ellipse", "polyline": "Polyline", "polygon": "Polygon", "image": "Image", "title": "Title",
    "desc": "Desc", "metadata": "Metadata", "clipPath": "ClipPath", "mask": "Mask", "switch": "Switch",
    "linearGradient": "LinearGradient", "radialGradient": "RadialGradient", "pattern": "Pattern",
}
OTHERS = ["stop", "filter", "feBlend", "feGaussianBlur", "feOffset", "animate", "animateTransform", "set", "textPath", "tref", "view",
          "foreignObject", "font", "glyph", "cursor", "color-profile", "font-face", "hkern", "mpath", "G", "RECT", "Svg", "svgs", "clippath",
          "{urn:ext}rect", "{urn:ext}svg", "{urn:ext}thing", "{http://www.w3.org/1999/xlink}g", "{%s}rect" % EXT2, "{%s}g" % EXT2]


def got(node, tail=True):
    """Canonical form of a loaded node, read through list access, tag() and attributes, texts through str()."""
    return (node.tag(), tuple(sorted((str(k), v) for k, v in node.attributes.items())), tuple(got(k) for k in node))


def want(t):
    return (t.tag, tuple(sorted(t.attrs.items())), tuple(want(k) for k in t.kids))


def et_canon(e, tail=True):
    tag = e.tag
    if tag.startswith("{%s}" % SVGNS):
        tag = tag[len(SVGNS) + 2:]
    return (tag, tuple(sorted(e.attrib.items())), e.text or "", (e.tail or "") if tail else "", tuple(et_canon(k) for k in e))


def load(xml):
    return nd().Document(io.StringIO(xml))


def check_tree(doc, node, t, rec, what, parent=None):
    """The node and everything below it are the nodes of the model, and their links lead where they should."""
    N = nd()
    rec.compared()
    if node.tag() != t.tag:
        return rec.fail("tag", "%s: tag %r, expected %r" % (what, node.tag(), t.tag))
    cls = CLASSES.get(t.tag, "Node")
    if type(node) is not getattr(N, cls):
        return rec.fail("class:%s" % t.tag, "%s: <%s> is a %s, expected %s" % (what, t.tag, type(node).__name__, cls))
    if {str(k): v for k, v in node.attributes.items()} != t.attrs:
        return rec.fail("attributes", "%s: <%s> has %r, expected %r" % (what, t.tag, dict(node.attributes), t.attrs))
    if node.parent is not parent:
        return rec.fail("parent", "%s: the parent of <%s> is %s" % (what, t.tag, type(node.parent).__name__))
    if node.document is not doc or node.owner_document is not doc:
        return rec.fail("document", "%s: the document of <%s> is %s" % (what, t.tag, type(node.document).__name__))
    if len(node) != len(t.kids):
        return rec.fail("children", "%s: <%s> has %d children, expected %d" % (what, t.tag, len(node), len(t.kids)))
    for k, m in zip(list(node), t.kids):
        check_tree(doc, k, m, rec, what, node)


# -- tree enumeration ------------------------------------------------------------------
def shapes(n):
    """All ordered rooted trees of n nodes as nested tuples."""
    if n == 1:
        return [()]
    out = []

    def forests(m):
        if m == 0:
            return [()]
        res = []
        for first in range(1, m + 1):
            for head in shapes(first):
                for rest in forests(m - first):
                    res.append((head,) + rest)
        return res
    out = [f for f in forests(n - 1)]
    return out


def size(s):
    return 1 + sum(size(k) for k in s)


def label(s, tags, attrs=None):
    """Model tree of shape s with the given tags in document order."""
    it = iter(tags)
    at = iter(attrs) if attrs is not None else None

    def go(s):
        t = T(next(it), next(at) if at is not None else None)
        for k in s:
            t.add(go(k))
        return t
    return go(s)


# -- large trees -----------------------------------------------------------------------
def counts(ctx, top):
    """Every number up to a limit, and those around powers of two beyond."""
    low = ctx.pick(20, 70)
    out = list(range(1, low)) + [n + d for n in (32, 64, 100, 128, 256, 512, 1000, 1024, 2048) for d in (-1, 0, 1)]
    return sorted(set(n for n in out if n <= top))


def big_tree(kind, n):
    """A tree of about n elements: children of one, one below the other, twigs along a branch, groups of three, attributes of one."""
    names = ["g", "rect", "text", "foo", "path"]
    root = T("svg", {"id": "root"})
    if kind == "wide":
        for i in range(n):
            root.add(T(names[i % 5], {"id": "i%d" % i}, text="t%d" % i, tail="u%d" % i))
    elif kind == "groups":
        for i in range(n):
            g = root.add(T("g", {"id": "g%d" % i}, tail="u"))
            for j in range(3):
                g.add(T(names[j + 1], {"id": "i%d.%d" % (i, j)}, text="t"))
    elif kind == "attributes":
        root.add(T("rect", dict([("a%d" % i, "v%d" % i) for i in range(n)] + [("id", "r")])))
        root.add(T("foo", dict([("id", "f")] + [("b%d" % i, "w%d" % i) for i in range(n)])))
    else:
        at = root
        for i in range(n):
            if kind == "twigs":
                at.add(T("rect", {"id": "a%d" % i}, tail="u%d" % i))
            down = at.add(T("g" if i % 3 else "foo", {"id": "i%d" % i}, text="t%d" % i))
            if kind == "twigs":
                at.add(T("text", {"id": "b%d" % i}, text="x"))
            at = down
    return root


def big_trees(ctx, wide=1100, deep=150):
    for kind in ("wide", "groups", "attributes", "deep", "twigs"):
        for n in counts(ctx, {"deep": deep, "twigs": deep // 2, "groups": wide // 3}.get(kind, wide)):
            yield (kind, n)


LONG = (1, 10, 100, 1000, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32768, 65535, 65536, 65537, 100000)


def padded(ctx):
    """A small tree behind so much text that a reader's block of 16384 or 65536 ends at every place of it."""
    t = T("svg", {"id": "s"}, [T("text", {"id": "a", "x": "1"}, [T("tspan", {"id": "b"}, text="in side", tail="af ter"), T("tspan", {"y": "2"})], text="be fore", tail="tail &"),
                               T("foo", {"id": "c"}, [T("rect", {"id": "d", "width": "34"})], tail="\u00e9"), T("g")])
    n = len(to_xml(t))
    for block in (16384, 65536):
        for at in range(0, n + 2, ctx.pick(2, 1)):
            yield (t, block, at)


def padded_xml(t, block, at):
    xml = to_xml(t)
    i = xml.index(">") + 1
    pad = block - at
    x = T("svg", t.attrs, [T("desc", {"id": "pad"}, text="x" * 10)] + t.kids)
    more = pad - (len(to_xml(x)) - len(xml)) + 10
    x.kids[0].text = "p" * max(0, more)
    return x, to_xml(x)


# -- P40 -------------------------------------------------------------------------------
def P40(ctx):
    N = nd()
    names = ["g", "path", "text", "foo", "{urn:ext}rect", "svg"]

    def trees():
        for n in range(1, ctx.pick(6, 7) + 1):
            pool = names if n <= 5 else names[:ctx.pick(2, 4 if n == 6 else 2)]
            for s in shapes(n):
                for tags in itertools.product(pool, repeat=n - 1):
                    yield (s, ("svg",) + tags)

    def tree(case, rec):
        t = label(*case)
        for i, n in enumerate(t.walk()):
            n.attrs["n"] = str(i)
            if i:
                n.attrs["id"] = "i%d" % i
        d = load(to_xml(t))
        rec.state(want(t))
        rec.step(sum(1 for _ in t.walk()))
        if len(d) != 1:
            return rec.fail("roots", "the document has %d roots" % len(d))
        check_tree(d, d[0], t, rec, to_xml(t), d)
        rec.outcome(got(d[0]))
    ctx.explore("trees", trees, tree, bound="every ordered tree of up to %d elements x element names" % ctx.pick(6, 7))

    def elements():
        for tag in list(CLASSES) + OTHERS:
            for where in ("root", "leaf", "between", "in_other", "twice"):
                for prefix in ("", "s"):
                    yield (tag, where, prefix)

    def element(case, rec):
        tag, where, prefix = case
        a = {"id": "a", "x": "1"}
        if where == "root":
            t = T(tag, a, [T("rect"), T(tag, {"id": "b"})])
        elif where == "leaf":
            t = T("svg", {}, [T("g"), T(tag, a), T("g")])
        elif where == "between":
            t = T("svg", {}, [T("g", {}, [T(tag, a, [T("rect", {"id": "r"}), T("foo")]), T("line")])])
        elif where == "in_other":
            t = T("svg", {}, [T("foo", {}, [T(tag, a), T("{urn:ext}g", {}, [T(tag, {"id": "b"})])])])
        else:
            t = T("svg", {}, [T(tag, a, [T(tag, {"id": "b"}, [T("rect")])]), T(tag)])
        xml = to_xml(t, prefix=prefix)
        d = load(xml)
        rec.state(xml)
        rec.step()
        if len(d) != 1:
            return rec.fail("roots", "the document has %d roots" % len(d))
        check_tree(d, d[0], t, rec, xml, d)
    ctx.explore("elements", elements, element, bound="every SVG element with a class, %d others x 5 places x 2 namespace spellings" % len(OTHERS))

    values = ["", "0", " a  b ", "a\nb\tc", "<&>\"'", "\u00e9\u4e2d\U0001f600", "url(#x)", "M0,0L1,1", "none"]
    keys = ["x", "id", "class", "style", "d", "stroke-width", "viewBox", "data-q", "{%s}href" % XLINK, "{urn:ext}x", "{%s}space" % XMLNS,
            "document", "parent", "attributes", "tag", "text", "xmlns_"]

    def attributes():
        for k in keys:
            for v in values:
                yield [(k, v)]
        for ks in itertools.permutations(keys[:ctx.pick(9, 12)], 3):
            yield [(k, str(i)) for i, k in enumerate(ks)]

    def attribute(case, rec):
        for tag in ("g", "rect", "text", "foo", "svg"):
            t = T("svg", {}, [T(tag, dict(case), [T("rect", dict(case))])])
            d = load(to_xml(t))
            rec.step()
            rec.state((tag, case))
            check_tree(d, d[0], t, rec, to_xml(t), d)
            if list(d[0][0].attributes) != [k for k, _ in case]:
                rec.fail("attribute order", "%r, expected %r" % (list(d[0][0].attributes), case))
    ctx.explore("attributes", attributes, attribute, bound="every attribute name x value, every ordered choice of 3 names, on 5 elements")

    extras = {"plain": "%s", "comment": "<!-- c -->%s<!-- d -->", "declaration": '<?xml version="1.0"?>\n%s\n', "pi": '<?xml-stylesheet href="a"?>%s',
              "doctype": '<!DOCTYPE svg PUBLIC "-//W3C//DTD SVG 1.1//EN" "none">%s'}
    inner = {"none": "", "comment": "<!-- x --><!---->", "pi": "<?p q?>", "cdata": "<![CDATA[<rect/>]]>", "entity": "&lt;rect/&gt;&#65;", "space": "\n  \n"}

    def sources():
        for n in range(1, 5):
            for s in shapes(n):
                for how in ("StringIO", "BytesIO", "file", "utf-16", "latin-1", "open file", "read()"):
                    for e in extras:
                        for i in inner:
                            yield (s, how, e, i)

    def source(case, rec):
        s, how, e, i = case
        t = label(s, ["svg", "g", "rect", "foo"])
        for j, x in enumerate(t.walk()):
            x.attrs["k"] = "\u00e9%d" % j
            x.text = x.tail = "\x00"
        body = to_xml(t).replace("\x00", inner[i])
        xml = extras[e] % body
        enc = {"utf-16": "utf-16", "latin-1": "latin-1"}.get(how, "utf-8")
        if enc != "utf-8" or how in ("BytesIO", "file"):
            if e == "declaration":
                xml = xml.replace('"1.0"', '"1.0" encoding="%s"' % enc)
            elif enc == "latin-1":
                xml = '<?xml version="1.0" encoding="latin-1"?>' + xml
        if how == "StringIO":
            d = N.Document(io.StringIO(xml))
        elif how in ("BytesIO", "utf-16", "latin-1"):
            d = N.Document(io.BytesIO(xml.encode(enc)))
        else:
            with Scratch() as dir:
                p = os.path.join(dir, "a.svg")
                with open(p, "wb") as f:
                    f.write(xml.encode("utf-8"))
                if how == "file":
                    d = N.Document(p)
                elif how == "open file":
                    with open(p, "rb") as f:
                        d = N.Document(f)
                else:
                    d = N.Document()
                    d.read(p)
        rec.step()
        rec.state(case)
        if len(d) != 1:
            return rec.fail("roots", "the document has %d roots" % len(d))
        check_tree(d, d[0], t, rec, xml, d)
    ctx.explore("sources", sources, source, bound="every tree of up to 4 elements x 7 kinds of source x comments, instructions, CDATA in every place")

    def inserts():
        for n in range(1, 5):
            for s in shapes(n):
                for at in range(n):
                    for times in (1, 2):
                        for frag in range(3):
                            yield (s, at, times, frag)

    def big(case, rec):
        t = big_tree(*case)
        d = load(to_xml(t))
        rec.state(case)
        rec.outcome(case[0])
        rec.step(case[1])
        check_tree(d, d[0], t, rec, "%s %d" % case, d)
    ctx.explore("large", lambda: big_trees(ctx), big, bound="5 kinds of large trees of every size to %d and around powers of two to 1100 (nested: 150)" % (ctx.pick(20, 70) - 1))

    def long(case, rec):
        t, block, at = case
        x, xml = padded_xml(t, block, at)
        rec.state((block, at))
        rec.outcome(block)
        for src in (io.StringIO(xml), io.BytesIO(xml.encode("utf-8"))):
            d = N.Document(src)
            rec.step()
            check_tree(d, d[0], x, rec, "block of %d ends at %d" % (block, at), d)
    ctx.explore("long", lambda: padded(ctx), long, bound="every %splace of a tree at the end of a block of 16384 or 65536 characters" % ctx.pick("second ", ""))

    def insert(case, rec):
        s, at, times, frag = case
        t = label(s, ["svg", "g", "defs", "foo"])
        d = load(to_xml(t))
        live = flatten(d[0])
        model = list(t.walk())
        for r in range(times):
            mk = lambda: [T("rect", {"id": "r%d" % r}), T("g", {"id": "g%d" % r}, [T("path", {"id": "p%d" % r}), T("foo")]),
                          T("{urn:ext}g", {}, [T("svg", {"id": "s%d" % r}, [T("g")]), T("line")])][frag]
            f = mk()
            live[at].parse(io.StringIO(to_xml(f)))
            model[at].add(mk())
            rec.step()
        rec.state(case)
        check_tree(d, d[0], t, rec, "%r" % (case,), d)
        others = load(to_xml(t))
        check_tree(others, others[0], t, rec, "reload %r" % (case,), others)
    ctx.explore("inserts", inserts, insert, bound="every tree of up to 4 elements x every node parsed into, once and twice x 3 fragments")

    bad = ["", " ", "<svg>", "</svg>", "<svg></g>", "<svg/><svg/>", "<svg a></svg>", "<svg a='1' a='2'/>", "<svg>&x;</svg>", "<svg", "text", "<svg><g></svg></g>",
           "<svg><a:b/></svg>", "<svg>\x01</svg>", "<svg a='<'/>"]

    def malformed():
        for b in bad:
            yield b

    def mal(case, rec):
        rec.step()
        try:
            d = load(case)
        except Exception as e:
            if not isinstance(e, SyntaxError):
                rec.fail("error", "%r raised %s" % (case, type(e).__name__))
            return
        rec.fail("accepted", "%r loaded as %s" % (case, d))
    # what a text means does not depend on what was loaded, refused or edited before
    def attr(d):
        d[0].attributes["x"] = "edited"
        d[0][0].attributes["y"] = "edited"

    def add(d):
        d[0].append(N.Rect({"id": "new"}))

    def drop(d):
        del d[0][0]

    def parse(d):
        d[0].parse(io.StringIO(to_xml(T("g", {"id": "more"}, [T("foo")]))))
    small = [T("svg", {"x": "1"}, [T("g", {"id": "a"}, [T("rect", {"id": "b"})]), T("foo", {"id": "c"})]), T("svg", {"x": "1"}, [T("g", {"id": "a"})]), T("foo", {}, [T("svg")])]

    def ist(d, t, rec, what):
        if len(d) != 1:
            return rec.fail("history", "%s: the document has %d roots" % (what, len(d)))
        check_tree(d, d[0], t, rec, what, d)
        ids = {}
        for n in t.walk():
            if "id" in n.attrs:
                ids.setdefault(n.attrs["id"], n.tag)
        for i in ("a", "b", "c", "new", "more"):
            e = d.get_element_by_id(i)
            if (None if e is None else e.tag()) != ids.get(i):
                rec.fail("history", "%s: the element %r is %s" % (what, i, e if e is None else e.tag()))
    again.explore(ctx, "histories", [(to_xml(t), t) for t in small] + [("<svg><g></svg>", again.Refused), ('<svg><g id="a"/>', again.Refused)], load, ist,
                  [("attributes", attr), ("add", add), ("drop", drop), ("parse", parse)], ctx.pick(4, 5))
    ctx.explore("malformed", malformed, mal, bound="%d texts that are not well-formed XML" % len(bad))
    ctx.assumptions.append("comments, processing instructions and the document type are not part of the tree; XML syntax is the job of the expat parser")


def flatten(node):
    out = [node]
    for k in node:
        out += flatten(k)
    return out


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="mcdom")
        return self.dir

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# -- P41 -------------------------------------------------------------------------------
def save_ways(d, node, root):
    """(how, XML text) for every way to save a node."""
    yield "str", str(node)
    yield "xml", node.xml()
    if root:
        with Scratch() as dir:
            p = os.path.join(dir, "o.svg")
            d.write(p)
            with open(p, "rb") as f:
                data = f.read()
        yield "write", data
        with Scratch() as dir:
            p = os.path.join(dir, "o.svg")
            d.write(p)
            d.write(p)
            with open(p, "rb") as f:
                if f.read() != data:
                    yield "write twice", b"<differs/>"
            d2 = nd().Document(p)
        yield "write, read, write", str(d2[0])


def check_saved(d, t, rec, what, every=True):
    """Every way to save gives XML of the model tree (independent parser), for the root and every node."""
    live, model = flatten(d[0]), list(t.walk())
    for i, (n, m) in enumerate(zip(live, model)):
        if i and not every:
            break
        for how, xml in save_ways(d, n, i == 0):
            rec.compared()
            try:
                e = ET.fromstring(xml)
            except ET.ParseError as err:
                rec.fail("%s:malformed" % how, "%s: %s gives %r: %s" % (what, how, xml, err))
                continue
            g, w = et_canon(e, False), m.canon(False)
            if how == "write":
                # a saved file is SVG: its SVG elements are in the SVG namespace
                if not t.tag.startswith("{") and e.tag != "{%s}%s" % (SVGNS, t.tag):
                    rec.fail("write:namespace", "%s: the root is written as %s" % (what, e.tag))
            if g != w:
                rec.fail("%s:differs" % how, "%s: %s gives %r\n got %r\nwant %r" % (what, how, xml, g, w))


def P41(ctx):
    N = nd()
    names = ["g", "rect", "text", "foo", "{urn:ext}rect", "{%s}rect" % EXT2]

    def trees():
        for n in range(1, ctx.pick(5, 6) + 1):
            for s in shapes(n):
                for tags in itertools.product(names if n <= 4 else names[:4], repeat=n - 1):
                    yield (s, ("svg",) + tags)

    def tree(case, rec):
        t = label(*case)
        for i, n in enumerate(t.walk()):
            n.attrs["n"] = str(i)
        xml = to_xml(t)
        d = load(xml)
        rec.state(xml)
        rec.step()
        check_saved(d, t, rec, xml)
    ctx.explore("trees", trees, tree, bound="every ordered tree of up to %d elements x element names, every node saved" % ctx.pick(5, 6))

    def elements():
        for tag in list(CLASSES) + OTHERS:
            for prefix in ("", "s"):
                yield (tag, prefix)

    def element(case, rec):
        tag, prefix = case
        for t in (T(tag, {"id": "a"}, [T("rect")], text="q"), T("svg", {}, [T(tag, {"id": "a", "x": "1"}, [T(tag, {}, text="t", tail="u"), T("foo")])])):
            xml = to_xml(t, prefix=prefix)
            d = load(xml)
            rec.state(xml)
            rec.step()
            check_saved(d, t, rec, xml)
    ctx.explore("elements", elements, element, bound="every SVG element with a class and %d others, as root and inside" % len(OTHERS))

    texts = [None, "t", " \n ", "\u00e9<&>\"' ]]&gt;"]

    def textual():
        pool = texts
        for s in [x for n in range(1, 4) for x in shapes(n)]:
            n = size(s)
            for tx in itertools.product(pool, repeat=n):
                for tl in itertools.product(pool[:ctx.pick(3, 4)], repeat=n - 1):
                    yield (s, tx, (None,) + tl)
        for s in shapes(4):
            for mask in itertools.product((None, "x"), repeat=7):
                yield (s, tuple(m and "t%d" % i for i, m in enumerate(mask[:4])), (None,) + tuple(m and "u%d" % i for i, m in enumerate(mask[4:])))

    def textcase(case, rec):
        s, tx, tl = case
        t = label(s, ["svg", "text", "tspan", "foo"])
        for n, a, b in zip(t.walk(), tx, tl):
            n.text, n.tail = a, b
        xml = to_xml(t)
        d = load(xml)
        rec.state(xml)
        rec.step()
        check_saved(d, t, rec, xml, every=size(s) < 4)
    ctx.explore("text", textual, textcase, bound="every tree of up to 3 elements x 4 texts before and 3 (4) after every element; trees of 4 with every subset of texts")

    values = ["", "0", " a  b ", "a\nb\tc", "<&>\"'", "\u00e9\u4e2d\U0001f600", "'", '"', "&amp;", "%s%d{}", "]]>", "--", "a=b;c"]
    keys = ["x", "id", "class", "style", "d", "stroke-width", "viewBox", "data-q", "{%s}href" % XLINK, "{urn:ext}x", "{%s}space" % XMLNS, "context", "tag", "text"]

    def attributes():
        for k in keys:
            for v in values:
                yield [(k, v)]
        for ks in itertools.permutations(keys[:ctx.pick(9, 12)], 2):
            yield [(k, str(i)) for i, k in enumerate(ks)]

    def attribute(case, rec):
        t = T("svg", {}, [T(tag, dict(case), [T("rect", dict(case))]) for tag in ("g", "rect", "foo")])
        t.attrs = dict(case)
        d = load(to_xml(t))
        rec.step()
        rec.state(case)
        check_saved(d, t, rec, to_xml(t))
    ctx.explore("attributes", attributes, attribute, bound="every attribute name x %d values, every pair of names" % len(values))

    def objects():
        import svgio.basic as B
        return [0, 1, -3, 0.0, 0.5, 1e-7, 1e21, True, False, "", "0", B.Length(0), B.Length("2mm"), B.Length("0%"), B.Color("#0000"), B.Color("red"), B.Color("black"), B.Angle(0), B.Point(0, 0), B.Matrix()]

    def given():
        for i in range(len(objects())):
            for how in ("set", "built", "shape", "update"):
                for k in ("x", "fill", "data-q"):
                    yield (i, how, k)

    def givencase(case, rec):
        i, how, k = case
        v = objects()[i]
        d = load("<svg xmlns='%s'/>" % SVGNS)
        if how == "set":
            d[0].rect()
            d[0][0].attributes[k] = v
        elif how == "update":
            d[0].rect()
            d[0][0].attributes.update({k: v})
        elif how == "built":
            d[0].rect(**{k: v})
        else:
            d[0].append(N.Rect(**{k: v}))
            d[0][0].parent = d[0]
        rec.state(case)
        rec.step()
        check_saved(d, T("svg", {}, [T("rect", {k: str(v)})]), rec, "%s=%r %s" % (k, v, how))
    ctx.explore("values", given, givencase, bound="20 numbers and values of the library (zeros too) as attributes, set or built in 4 ways")

    def big(case, rec):
        t = big_tree(*case)
        d = load(to_xml(t))
        rec.state(case)
        rec.outcome(case[0])
        rec.step(case[1])
        check_saved(d, t, rec, "%s %d" % case, every=False)
    ctx.explore("large", lambda: big_trees(ctx, deep=100), big, bound="5 kinds of large trees of every size to %d and around powers of two to 1100 (nested: 100)" % (ctx.pick(20, 70) - 1))

    def long(case, rec):
        t, block, at = case
        x, xml = padded_xml(t, block, at)
        rec.state((block, at))
        rec.outcome(block)
        d = load(xml)
        rec.step()
        check_saved(d, x, rec, "block of %d ends at %d" % (block, at), every=False)
    ctx.explore("long", lambda: padded(ctx), long, bound="every %splace of a tree at the end of a block of 16384 or 65536 characters" % ctx.pick("second ", ""))

    def lengths():
        for n in LONG:
            for where in range(3):
                for c in "a\u00e9&":
                    yield (n, where, c)

    def lencase(case, rec):
        n, where, c = case
        v = c * n
        t = T("svg", {}, [T("text", {"id": v} if where == 0 else {}, text=v if where == 1 else None, tail=v if where == 2 else None), T("g")])
        d = load(to_xml(t))
        rec.state(case)
        rec.step()
        check_saved(d, t, rec, repr(case), every=False)
    ctx.explore("long values", lengths, lencase, bound="values and texts of %d lengths to 100000, in 3 places, of 3 characters" % len(LONG))

    # editing histories: the saved text is that of the edited tree
    ops = [("set", "fill", "red"), ("set", "x", 1.5), ("del", "id"), ("build", "rect"), ("build", "g"), ("parse", "<e:f xmlns:e='urn:ext' k='v'>t<g/>u</e:f>"),
           ("parse", "<text xmlns='%s'>a<tspan>b</tspan>c</text>" % SVGNS), ("remove",), ("move",)]
    allops = [(o, w) for w in range(2) for o in ops]

    def build(root):
        t = label(root, ["svg", "g", "rect"])
        for i, n in enumerate(t.walk()):
            n.attrs["id"] = "i%d" % i
            n.text = "T%d" % i
        d = load(to_xml(t))
        return [d, d[0], t]

    def pick(st, w):
        """Target of an operation: the root or the last element in document order."""
        live, model = flatten(st[1]), list(st[2].walk())
        return (live[0], model[0]) if w == 0 else (live[-1], model[-1])

    def apply(st, op, rec):
        (o, w) = op
        n, m = pick(st, w)
        if o[0] == "set":
            n.attributes[o[1]] = o[2]
            m.attrs[o[1]] = str(o[2])
        elif o[0] == "del":
            n.attributes.pop("id", None)
            m.attrs.pop("id", None)
        elif o[0] == "build":
            getattr(n, o[1])(fill="blue")
            m.add(T(o[1], {"fill": "blue"}))
        elif o[0] == "parse":
            n.parse(io.StringIO(o[1]))
            e = ET.fromstring(o[1])

            def conv(e):
                tag = e.tag.replace("{%s}" % SVGNS, "")
                return T(tag, e.attrib, [conv(k) for k in e], e.text, e.tail)
            m.add(conv(e))
        elif o[0] == "remove":
            if len(n):
                del n[0]
                del m.kids[0]
        elif o[0] == "move":
            n.reverse()
            m.kids.reverse()

    def canon(st):
        return st[2].canon()

    def check(st, hist, rec):
        check_saved(st[0], st[2], rec, repr(hist), every=False)
    ctx.bfs("edits", [s for n in range(1, 4) for s in shapes(n)], allops, build, apply, canon, check, depth=ctx.pick(3, 4), asked=ctx.pick("last", "all"),
            bound="every history of up to %d edits (attributes, building, parsing in, removing, reordering) on the root and the last element of 4 trees" % ctx.pick(3, 4))
    ctx.assumptions.append("comments, processing instructions and the document type are not kept; namespace prefixes may change; carriage returns in text are left out")


# -- P42 -------------------------------------------------------------------------------
def P42(ctx):
    N = nd()
    # every element of every tree
    tags = ["g", "rect", "foo", "defs", "{urn:ext}q", "clipPath", "linearGradient", "text", "svg"]

    def trees():
        for n in range(1, ctx.pick(5, 6) + 1):
            for s in shapes(n):
                pool = tags if n <= 3 else tags[:4]
                for tg in itertools.product(pool, repeat=n - 1):
                    for mask in itertools.product((0, 1), repeat=n) if n <= 3 else [(1,) * n]:
                        yield (s, ("svg",) + tg, mask)

    # also ids which come later in the histories below
    UNKNOWN = ["nope", "", "i", "#i0", "i99"] + ["n%d%s" % (i, x) for i in range(1, 5) for x in ("", "x", "y", "z")]

    def lookup(doc, expected, rec, what):
        """expected: id -> node object; other ids are unknown."""
        for i in list(expected) + [i for i in UNKNOWN if i not in expected]:
            rec.compared()
            g = doc.get_element_by_id(i)
            w = expected.get(i)
            if g is not w:
                rec.fail("id", "%s: get_element_by_id(%r) is %r, expected %r" % (what, i, g, w))
            g = doc.get_element_by_url("url(#%s)" % i) if not i.startswith("#") else w
            if g is not w:
                rec.fail("url", "%s: get_element_by_url('url(#%s)') is %r, expected %r" % (what, i, g, w))

    def tree(case, rec):
        s, tg, mask = case
        t = label(s, tg)
        for i, (n, k) in enumerate(zip(t.walk(), mask)):
            if k:
                n.attrs["id"] = "i%d" % i
        xml = to_xml(t)
        d = load(xml)
        rec.state(xml)
        rec.step()
        lookup(d, {m.attrs["id"]: n for n, m in zip(flatten(d[0]), t.walk()) if "id" in m.attrs}, rec, xml)
    ctx.explore("trees", trees, tree, bound="every tree of up to %d elements x names x which elements have an id" % ctx.pick(5, 6))

    def big(case, rec):
        t = big_tree(*case)
        d = load(to_xml(t))
        rec.state(case)
        rec.outcome(case[0])
        rec.step(case[1])
        rec.compared(case[1])
        for k in (0, 1):
            for n, m in zip(flatten(d[0]), t.walk()):
                if d.get_element_by_id(m.attrs["id"]) is not n or d.get_element_by_url("url(#%s)" % m.attrs["id"]) is not n:
                    return rec.fail("large", "%s %d: %r is not found" % (case + (m.attrs["id"],)))
            # the first and the last get one more child each
            for n, m in list(zip(flatten(d[0]), t.walk()))[::max(1, case[1] - 1)]:
                i = "new%d" % len(list(t.walk()))
                n.rect(id=i)
                m.add(T("rect", {"id": i}))
    ctx.explore("large", lambda: big_trees(ctx, deep=120), big, bound="5 kinds of large trees of every size to %d and around powers of two to 1100 (nested: 120)" % (ctx.pick(20, 70) - 1))

    # whole trees brought in at once
    def added(case, rec):
        kind, n, how = case
        t = big_tree(kind, n)
        d = N.Document()
        if how == "parsed":
            top = N.SVG()
            top.parse(io.StringIO(to_xml(t)))
            d.add(top)
            live = flatten(d[0])[1:]
        else:
            def grow(node, m):
                for k in m.kids:
                    {"g": node.g, "rect": node.rect, "text": node.text, "path": node.path, "foo": node.a}[k.tag](id=k.attrs["id"])
                    grow(node[-1], k)
            top = N.SVG(id="root")
            grow(top, t)
            if how == "added":
                d.add(top)
            else:
                d.svg(id="top")
                d.add(top)
            live = flatten(d[-1])
        rec.state(case)
        rec.outcome((kind, how))
        rec.step()
        model = list(t.walk())
        rec.compared(2 * len(model))
        if len(live) != len(model):
            return rec.fail("added", "%r: %d nodes" % (case, len(live)))
        for x, m in zip(live, model):
            i = m.attrs["id"]
            if d.get_element_by_id(i) is not x or d.get_element_by_url("url(#%s)" % i) is not x:
                return rec.fail("added", "%r: %r is not found" % (case, i))
            if x.document is not d:
                return rec.fail("added document", "%r: %r belongs to %r" % (case, i, type(x.document)))
    ctx.explore("added", lambda: (c + (h,) for c in big_trees(ctx, wide=300, deep=120) if c[0] != "attributes" for h in ("parsed", "added", "second")), added,
                bound="4 kinds of trees of every size to %d and around powers of two to 300 (nested: 120), added in 3 ways" % (ctx.pick(20, 70) - 1))

    ids = ["a", "A", "a1", "a-b", "a.b", "a_b", "a:b", "\u00e9", "1", "x y", "id", "url", "a#b", "#", "0", "None", "svg", "__class__", "\u4e2d", "a,b", "a;b"]

    def names():
        for a in ids:
            for b in ids:
                if a != b:
                    yield (a, b)

    def name(case, rec):
        a, b = case
        t = T("svg", {}, [T("g", {"id": a}, [T("rect", {"x": b})]), T("foo", {"id": b})])
        d = load(to_xml(t))
        rec.state(case)
        rec.step()
        for i, w in ((a, d[0][0]), (b, d[0][1])):
            rec.compared()
            if d.get_element_by_id(i) is not w:
                rec.fail("id name", "get_element_by_id(%r) is %r" % (i, d.get_element_by_id(i)))
            if not i.startswith("#") and d.get_element_by_url("url(#%s)" % i) is not w:
                rec.fail("url name", "get_element_by_url('url(#%s)') is %r" % (i, d.get_element_by_url("url(#%s)" % i)))
    ctx.explore("names", names, name, bound="every ordered pair of %d ids" % len(ids))

    # histories on two documents side by side
    frags = ["<g id='%s'><foo id='%sx'/></g>", "<foo><rect id='%s'/><g><g id='%sx'/></g></foo>"]
    ops = []
    for doc in (0, 1):
        for where in ("root", "last", "document"):
            for o in ("build", "build_g", "parse0", "parse1"):
                if where == "document" and o == "parse1":
                    continue
                ops.append((doc, where, o))
        ops.append((doc, "document", "add"))
        ops.append((doc, "document", "add_tree"))
        ops.append((doc, "document", "add_detached"))
    ops.append((0, "", "lookup"))

    def build(root):
        if root == "empty":
            docs = [N.Document(), N.Document()]
        else:
            docs = [load(root), load(root)]
        st = {"docs": docs, "ids": [{}, {}], "n": 0, "last": [None, None], "log": []}
        for i in (0, 1):
            for n in flatten(docs[i])[1:]:
                if "id" in n.attributes:
                    st["ids"][i][n.attributes["id"]] = n
            st["last"][i] = flatten(docs[i])[-1]
        return st

    def apply(st, op, rec):
        i, where, o = op
        if o == "lookup":
            for x in (0, 1):
                for k in list(st["ids"][x]) + ["zz"]:
                    st["docs"][x].get_element_by_id(k)
                    st["docs"][x].get_element_by_url("url(#%s)" % k)
            return
        d = st["docs"][i]
        target = {"root": d[0] if len(d) else d, "last": st["last"][i], "document": d}[where]
        st["n"] += 1
        key = "n%d" % st["n"]
        before = len(target)
        st["log"].append(op)
        if o == "build":
            target.rect(0, 0, 1, 1, id=key)
            st["ids"][i][key] = target[-1]
        elif o == "build_g":
            target.g(id=key)
            st["ids"][i][key] = target[-1]
        elif o.startswith("parse"):
            f = frags[int(o[-1])] % (key, key)
            target.parse(io.StringIO(f))
            new = target[-1]
            if o == "parse0":
                st["ids"][i][key], st["ids"][i][key + "x"] = new, new[0]
            else:
                st["ids"][i][key], st["ids"][i][key + "x"] = new[0], new[1][0]
        elif o == "add":
            n = N.Rect(0, 0, 1, 1, id=key)
            d.add(n)
            st["ids"][i][key] = n
        elif o == "add_tree":
            n = N.Group(id=key)
            n.rect(id=key + "x")
            n.g(id=key + "y")
            n[1].circle(id=key + "z")
            d.add(n)
            st["ids"][i].update({key: n, key + "x": n[0], key + "y": n[1], key + "z": n[1][0]})
        elif o == "add_detached":
            n = N.SVG()
            n.parse(io.StringIO(frags[0] % (key, key)))
            d.add(n)
            st["ids"][i].update({key: n[0], key + "x": n[0][0]})
        if len(target) != before + 1:
            raise RuntimeError("%d children instead of %d" % (len(target), before + 1))
        st["last"][i] = flatten(d)[-1]

    def canon(st):
        return [[(k, n.tag(), len(n)) for k, n in sorted(x.items())] for x in st["ids"]] + [[got(n) for n in d] for d in st["docs"]]

    def check(st, hist, rec):
        for i in (0, 1):
            lookup(st["docs"][i], st["ids"][i], rec, "%r document %d" % (hist, i))
            for n in flatten(st["docs"][i])[1:]:
                if n.document is not st["docs"][i]:
                    rec.fail("document", "%r: %r belongs to %r" % (hist, n.tag(), type(n.document)))
            for k, n in st["ids"][i].items():
                if st["docs"][1 - i].get_element_by_id(k) is n:
                    rec.fail("shared", "%r: %r of document %d is found in the other" % (hist, k, i))
    ctx.bfs("histories", ["empty", "<svg id='s'><g id='g'/></svg>", "<svg><foo><rect id='r'/></foo></svg>"], ops, build, apply, canon, check, depth=ctx.pick(3, 4),
            bound="every history of up to %d of %d ways to bring nodes into one of two documents" % (ctx.pick(3, 4), len(ops)))
    ctx.assumptions.append("ids are unique in a document; changing the id attribute or unlinking a node through list methods does not update the index")


# -- P43 -------------------------------------------------------------------------------
def P43(ctx):
    N = nd()

    def check(d, t, rec, what, pairs=True):
        live, model = flatten(d[0]), list(t.walk())
        node = {id(m): n for n, m in zip(live, model)}
        for n, m in zip(live, model):
            k = m.kids
            sib = m.parent.kids if m.parent is not None else [m]
            at = next(i for i, x in enumerate(sib) if x is m)
            exp = {
                "parent_node": node[id(m.parent)] if m.parent is not None else d,
                "parent_element": node[id(m.parent)] if m.parent is not None else d,
                "first_child": node[id(k[0])] if k else None,
                "last_child": node[id(k[-1])] if k else None,
                "next_sibling": node[id(sib[at + 1])] if at + 1 < len(sib) else None,
                "previous_sibling": node[id(sib[at - 1])] if at else None,
                "owner_document": d,
            }
            if isinstance(n, N.Element):
                exp.update({"first_element_child": exp["first_child"], "last_element_child": exp["last_child"],
                            "next_element_sibling": exp["next_sibling"], "previous_element_sibling": exp["previous_sibling"]})
            for name, w in exp.items():
                rec.compared()
                g = getattr(n, name)
                if g is not w:
                    rec.fail(name, "%s: %s of node %d <%s> is %s" % (what, name, model.index(m), m.tag, where(g, live, d)))
            rec.compared(2)
            if n.has_child_nodes() is not bool(k):
                rec.fail("has_child_nodes", "%s: %r" % (what, n.has_child_nodes()))
            if isinstance(n, N.Element):
                if n.child_element_count != len(k):
                    rec.fail("child_element_count", "%s: %r" % (what, n.child_element_count))
                if [id(x) for x in n.children] != [id(node[id(x)]) for x in k]:
                    rec.fail("children", "%s: %r" % (what, n.children))
                if n.id != m.attrs.get("id"):
                    rec.fail("id", "%s: %r, expected %r" % (what, n.id, m.attrs.get("id")))
            if n.is_connected is not True:
                rec.fail("is_connected", "%s: %r" % (what, n.is_connected))
        for n, m in zip(live, model) if pairs else ():
            for n2, m2 in zip(live, model):
                rec.compared(2)
                if n.is_same_node(n2) is not (n is n2):
                    rec.fail("is_same_node", "%s: %d and %d" % (what, model.index(m), model.index(m2)))
                if bool(n.is_equal_node(n2)) != (m.canon(False) == m2.canon(False)):
                    rec.fail("is_equal_node", "%s: nodes %d and %d: %s" % (what, model.index(m), model.index(m2), n.is_equal_node(n2)))

    def where(g, live, d):
        if g is d:
            return "the document"
        for i, n in enumerate(live):
            if n is g:
                return "node %d" % i
        return repr(g)

    def trees():
        for n in range(1, ctx.pick(6, 8) + 1):
            for s in shapes(n):
                yield (s, "same")
                if n <= 6:
                    yield (s, "distinct")
        for n in range(2, ctx.pick(6, 7) + 1):
            for s in shapes(n):
                for tags in itertools.product(("g", "foo"), repeat=n - 1):
                    yield (s, tags)

    def tree(case, rec):
        s, kind = case
        n = size(s)
        if kind == "same":
            t = label(s, ["g"] * n)
        elif kind == "distinct":
            t = label(s, ["g"] * n, [{"id": "i%d" % i} for i in range(n)])
        else:
            t = label(s, ("svg",) + kind)
        d = load(to_xml(t))
        rec.state(case)
        rec.step(n)
        check(d, t, rec, to_xml(t))
    ctx.explore("trees", trees, tree, bound="every ordered tree of up to %d equal elements, up to 6 distinct, up to %d of two kinds; all pairs of nodes" % (ctx.pick(6, 8), ctx.pick(6, 7)))

    def big(case, rec):
        kind, n, ask = case
        t = big_tree(kind, n)
        d = load(to_xml(t))
        rec.state(case)
        rec.outcome(kind)
        rec.step(n)
        if ask == "links":
            return check(d, t, rec, "%s %d" % (kind, n), pairs=False)
        # the same tree is equal; changed at its last place it is not
        e = load(to_xml(t))
        rec.compared(2)
        if not d[0].is_equal_node(e[0]):
            rec.fail("large equal", "%s %d: not equal to the same" % (kind, n))
        last = list(t.walk())[-1]
        if ask == "tail" and kind in ("deep", "attributes"):
            last.text = "other"
        elif ask == "tail":
            last.attrs["id"] = "other"
        else:
            last.add(T("g"))
        e = load(to_xml(t))
        if d[0].is_equal_node(e[0]) or e[0].is_equal_node(d[0]):
            rec.fail("large unequal", "%s %d: equal to one whose last element differs (%s)" % (kind, n, ask))
    ctx.explore("large", lambda: (c + (a,) for c in big_trees(ctx, wide=300, deep=120) for a in ("links", "tail", "child")), big,
                bound="5 kinds of large trees of every size to %d and around powers of two to 300 (nested: 120)" % (ctx.pick(20, 70) - 1))

    # equality: every single difference at every place
    def differences():
        for n in range(1, ctx.pick(5, 6) + 1):
            for s in shapes(n):
                for at in range(n):
                    for how in ("none", "tag", "foreign tag", "value", "extra attribute", "missing attribute", "renamed attribute", "text", "no text", "tail", "blank tail", "blank text", "blank in text", "line end", "extra child first",
                                "extra child last", "swapped children", "attribute order", "spaces"):
                        yield (s, at, how)

    def difference(case, rec):
        s, at, how = case
        mk = lambda: label(s, ["svg", "g", "foo", "text", "g", "a"], [{"x": "1", "y": "2"} for _ in range(size(s))])
        a, b = mk(), mk()
        for t in (a, b):
            for i, n in enumerate(t.walk()):
                n.text = "t"
        m = list(b.walk())[at]
        if how == "tag":
            m.tag = "rect"
        elif how == "foreign tag":
            m.tag = "{urn:ext}" + m.tag
        elif how == "value":
            m.attrs["x"] = "1.0"
        elif how == "extra attribute":
            m.attrs["z"] = ""
        elif how == "missing attribute":
            del m.attrs["y"]
        elif how == "renamed attribute":
            m.attrs = {"x": "1", "Y": "2"}
        elif how == "text":
            m.text = "T"
        elif how == "no text":
            m.text = None
        elif how == "tail":
            if m.parent is None:
                return rec.skip("no tail at the root")
            m.tail = "q"
        elif how == "blank tail":
            if m.parent is None:
                return rec.skip("no tail at the root")
            m.tail = " "
        elif how == "blank text":
            m.text = " "
        elif how == "blank in text":
            m.text = "t "
        elif how == "line end":
            m.text = "\nt"
        elif how == "extra child first":
            k = T("g")
            k.parent = m
            m.kids.insert(0, k)
        elif how == "extra child last":
            m.add(T("g"))
        elif how == "swapped children":
            m.kids.reverse()
        elif how == "attribute order":
            m.attrs = {"y": "2", "x": "1"}
        da, db = load(to_xml(a)), load(to_xml(b))
        rec.state(case)
        rec.step(2)
        rec.compared(2)
        w = a.canon() == b.canon()
        rec.outcome((how, w))
        for x, y in ((da[0], db[0]), (db[0], da[0])):
            if bool(x.is_equal_node(y)) != w:
                rec.fail("difference:%s" % how, "%s\n%s: is_equal_node %s" % (to_xml(a), to_xml(b), x.is_equal_node(y)))
            if x.is_same_node(y):
                rec.fail("same", "nodes of two documents are the same")
        for other in (None, [], "g", 3):
            if da[0].is_equal_node(other) or da[0].is_same_node(other):
                rec.fail("other", "equal to %r" % (other,))
    ctx.explore("differences", differences, difference, bound="every tree of up to %d elements x every element x 18 single differences" % ctx.pick(5, 6))

    # after edits
    ops = [(o, w) for w in ("root", "last", "first") for o in ("build", "build same", "parse")]
    ops += [("read", "root")]

    def build(root):
        t = label(root, ["svg", "g", "g"])
        d = load(to_xml(t))
        return [d, t]

    def apply(st, op, rec):
        o, w = op
        live, model = flatten(st[0][0]), list(st[1].walk())
        i = {"root": 0, "last": len(live) - 1, "first": min(1, len(live) - 1)}[w]
        n, m = live[i], model[i]
        if o == "build":
            n.rect(x="1")
            m.add(T("rect", {"x": "1"}))
        elif o == "build same":
            n.g()
            m.add(T("g"))
        elif o == "parse":
            n.parse(io.StringIO("<g><g/><rect x='1'/></g>"))
            m.add(T("g", {}, [T("g"), T("rect", {"x": "1"})]))
        else:
            for x in live:
                x.next_sibling, x.previous_sibling, x.is_equal_node(n), str(x)

    ctx.bfs("edits", [s for n in range(1, 4) for s in shapes(n)], ops, build, apply, lambda st: st[1].canon(),
            lambda st, hist, rec: check(st[0], st[1], rec, repr(hist)), depth=ctx.pick(4, 5),
            bound="every history of up to %d of %d edits on 4 trees" % (ctx.pick(4, 5), len(ops)))
    ctx.assumptions.append("children are placed by loading, building, parsing in or Document.add; list methods do not set the parent")


# -- P44 -------------------------------------------------------------------------------
SHAPE_PROPS = {
    "rect": ["x", "y", "width", "height", "rx", "ry"],
    "circle": ["cx", "cy", "r"],
    "ellipse": ["cx", "cy", "rx", "ry"],
    "line": ["x1", "y1", "x2", "y2"],
    "polyline": ["points"],
    "polygon": ["points"],
    "path": ["d"],
    "text": ["x", "y", "dx", "dy", "width", "height"],
    "use": ["x", "y", "width", "height"],
    "image": ["x", "y", "width", "height", "href", "viewBox", "preserveAspectRatio"],
    "pattern": ["x", "y", "width", "height", "href"],
    "mask": ["x", "y", "width", "height"],
    "svg": ["x", "y", "width", "height", "viewBox", "preserveAspectRatio"],
    "a": ["href"],
    "script": ["href"],
}
DEFAULTS = {("rect", "x"): 0, ("rect", "y"): 0, ("rect", "width"): 1, ("rect", "height"): 1}
PAINTED = ["rect", "circle", "ellipse", "line", "polyline", "polygon", "path", "text", "image", "tspan"]


def colour(v, opacity=None):
    """(r, g, b, alpha) of a colour name used below, or None."""
    if v is None or v == "none":
        return None
    rgb = {"red": (255, 0, 0), "#00f": (0, 0, 255), "rgb(1,2,3)": (1, 2, 3), "blue": (0, 0, 255), "lime": (0, 255, 0),
           "#ff000080": (255, 0, 0), "rgba(1,2,3,0)": (1, 2, 3), "#0f03": (0, 255, 0)}[v]
    a = {"#ff000080": 128, "rgba(1,2,3,0)": 0, "#0f03": 51}.get(v, 255)
    try:
        opacity = None if opacity is None else float(opacity)
    except ValueError:
        opacity = None
    if opacity is not None:
        a = int(round(float(opacity) * 255))
    return rgb + (a,)


def P44(ctx):
    def paint_of(c):
        if c is None or c.value is None:
            return None
        return (c.red, c.green, c.blue, c.alpha)

    def nearest(chain, key):
        """Value of an inherited property: of the element itself or its nearest ancestor."""
        for a in reversed(chain):
            if key in a:
                return a[key]
        return None

    def expect(node, chain, rec, what):
        """Everything a painted element inherits and nothing else. chain: attributes from the root to the element."""
        rec.compared(5)
        f, fo = nearest(chain, "fill"), nearest(chain, "fill-opacity")
        s, so = nearest(chain, "stroke"), nearest(chain, "stroke-opacity")
        for name, w, g in (("fill", colour(f, fo), paint_of(node.fill)), ("stroke", colour(s, so), paint_of(node.stroke)),
                           ("fill_opacity", fo, node.fill_opacity), ("stroke_opacity", so, node.stroke_opacity),
                           ("stroke_width", nearest(chain, "stroke-width"), node.stroke_width)):
            ok = g == w
            if not ok and name in ("fill", "stroke") and g is not None and w is not None:
                ok = g[:3] == w[:3] and abs(g[3] - w[3]) <= 1
            if not ok:
                rec.fail(name, "%s: %s is %r, expected %r" % (what, name, g, w))
        if (node.fill is None) != (f is None) or (node.stroke is None) != (s is None):
            rec.fail("no paint", "%s: fill %r stroke %r" % (what, node.fill, node.stroke))

    vals = {"fill": ["red", "#00f", "none"], "stroke": ["blue", "none", "rgb(1,2,3)"], "stroke-width": ["1", "2px", "0"],
            "fill-opacity": ["0.5", "0", "1"], "stroke-opacity": ["0.25", "0", "1"]}

    def chain_xml(tag, chain, mid="g"):
        t = None
        for i, a in enumerate(reversed(chain)):
            n = T(tag if i == 0 else ("svg" if i == len(chain) - 1 else mid), a)
            if t is not None:
                n.add(T("g", {k: "red" for k in ("fill", "stroke")}, [T("rect", {"fill": "lime", "stroke-width": "9"})]))
                n.add(t)
            t = n
        return t

    def find(doc, depth):
        n = doc[0]
        for _ in range(depth - 1):
            n = n[1]
        return n

    def single():
        """Each property at every subset of the levels, every element class, every depth."""
        for tag in PAINTED:
            for depth in (2, 3, 4):
                for key in vals:
                    for pick in itertools.product((None, 0, 1, 2), repeat=depth):
                        if depth == 4 and tag not in ("rect", "path") and not ctx.thorough:
                            continue
                        yield (tag, [{key: vals[key][p]} if p is not None else {} for p in pick], "g")

    def run(case, rec):
        tag, chain, mid = case
        t = chain_xml(tag, chain, mid)
        d = load(to_xml(t))
        n = find(d, len(chain))
        rec.state(case)
        rec.step()
        expect(n, chain, rec, to_xml(t))
    ctx.explore("single", single, run, bound="10 elements x 2-4 levels x each of 5 properties absent or one of 3 values at every level")

    def far():
        """A value given far above, at every distance."""
        for n in counts(ctx, 100):
            for key in vals:
                for tag in ("rect", "path", "text"):
                    yield (tag, [{key: vals[key][0]}] + [{}] * (n - 1) + [{"id": "x"}], "g")
                    yield (tag, [{key: vals[key][0]}] + [{"id": "i%d" % i} for i in range(n // 2)] + [{key: vals[key][1]}] + [{}] * (n - n // 2), "g")
    ctx.explore("far", far, run, bound="each of 5 properties given up to 100 levels above, also overridden half way")

    def paint():
        """Paint and its opacity together, at every level of three."""
        for kind in ("fill", "stroke"):
            for cs in itertools.product((None, "red", "none"), repeat=3):
                for os_ in itertools.product((None, "0.5", "0"), repeat=3):
                    for tag in ("rect", "text"):
                        ch = []
                        for c, o in zip(cs, os_):
                            a = {}
                            if c:
                                a[kind] = c
                            if o:
                                a[kind + "-opacity"] = o
                            ch.append(a)
                        yield (tag, ch, "g")

    def translucent():
        for kind in ("fill", "stroke"):
            for c in ("#ff000080", "rgba(1,2,3,0)", "#0f03", "red"):
                for o in (None, "0", "0.0", "0.1", "0.25", ".5", "0.996", "1", "1.0"):
                    for i, j in itertools.product(range(3), repeat=2):
                        ch = [{}, {}, {}]
                        ch[i][kind] = c
                        if o is not None:
                            ch[j][kind + "-opacity"] = o
                        yield ("rect", ch, "g")
    ctx.explore("translucent", translucent, run, bound="4 colours, 3 of them translucent x 9 opacities, each at any of three levels")
    ctx.explore("paint", paint, run, bound="colour x opacity at every one of three levels, fill and stroke")

    def unfit():
        """An opacity that is no number leaves the colour as it is."""
        for kind in ("fill", "stroke"):
            for c in ("#ff000080", "rgba(1,2,3,0)", "#0f03", "red", "none", None):
                for o in ("abc", "half", "0,5", "1/2", "--", "0.5.5", "url(#a)"):
                    for i, j in itertools.product(range(3), repeat=2):
                        for tag in ("rect", "text"):
                            ch = [{}, {}, {}]
                            if c:
                                ch[i][kind] = c
                            ch[j][kind + "-opacity"] = o
                            yield (tag, ch, "g")
    ctx.explore("unfit", unfit, run, bound="6 paints x 7 opacities that are no numbers, each at any of three levels")

    def mids():
        for mid in ("g", "svg", "defs", "symbol", "a", "switch", "foo", "clipPath", "mask", "pattern", "marker", "{urn:ext}g"):
            for key in vals:
                for pick in itertools.product((None, 0, 1), repeat=3):
                    yield ("path", [{key: vals[key][p]} if p is not None else {} for p in pick], mid)
    ctx.explore("containers", mids, run, bound="12 containers between the root and the element")

    # properties that are not inherited
    def own():
        for tag, props in SHAPE_PROPS.items():
            for p in props:
                for pick in itertools.product((0, 1), repeat=3):
                    for parent in ("g", "svg", tag):
                        yield (tag, p, pick, parent)

    def ownrun(case, rec):
        tag, p, pick, parent = case
        names = [p]
        if p == "href":
            names = ["href", "{%s}href" % XLINK]
        for name in names:
            chain = [{name: "v%d" % i} if x else {} for i, x in enumerate(pick)]
            t = T("svg", chain[0], [T(parent, chain[1], [T(tag, chain[2])])])
            d = load(to_xml(t))
            n = d[0][0][0]
            rec.state(case)
            rec.step()
            rec.compared()
            w = "v2" if pick[2] else DEFAULTS.get((tag, p))
            g = getattr(n, p)
            if g != w:
                rec.fail("own:%s" % p, "%s: %s.%s is %r, expected %r" % (to_xml(t), tag, p, g, w))
    ctx.explore("own", own, ownrun, bound="every geometry, link and view attribute of 15 elements set at every subset of three levels")

    def more():
        for tag in PAINTED + ["g", "svg"]:
            for key, attr in (("transform", "transform"), ("class", "css_class"), ("id", "id")):
                for pick in itertools.product((0, 1), repeat=3):
                    yield (tag, key, attr, pick)

    def morerun(case, rec):
        tag, key, attr, pick = case
        if attr == "css_class":
            return rec.skip("only stylable elements have it") if not hasattr(getattr(nd(), CLASSES[tag]), attr) else None
        if not hasattr(getattr(nd(), CLASSES[tag]), attr):
            return rec.skip("no such property")
        chain = [{key: "v%d" % i} if x else {} for i, x in enumerate(pick)]
        t = T("svg", chain[0], [T("g", chain[1], [T(tag, chain[2])])])
        d = load(to_xml(t))
        n = d[0][0][0]
        rec.state(case)
        rec.step()
        rec.compared()
        w = "v2" if pick[2] else None
        if getattr(n, attr) != w:
            rec.fail("own:%s" % attr, "%s: %s is %r, expected %r" % (to_xml(t), attr, getattr(n, attr), w))
    ctx.explore("transform and id", more, morerun, bound="transform and id set at every subset of three levels")

    # edits of the tree are seen at once
    ops = []
    for level in range(3):
        for k, v in (("fill", "red"), ("fill", "#00f"), ("stroke", "blue"), ("fill-opacity", "0.5"), ("stroke-opacity", "0"), ("stroke-width", "2")):
            ops.append((level, k, v))
        ops.append((level, "fill", None))
        ops.append((level, "stroke-width", None))

    def build(root):
        t = chain_xml("rect", root)
        return [load(to_xml(t)), [dict(a) for a in root]]

    def apply(st, op, rec):
        level, k, v = op
        n = find(st[0], level + 1)
        if v is None:
            n.attributes.pop(k, None)
            st[1][level].pop(k, None)
        else:
            n.attributes[k] = v
            st[1][level][k] = v

    def check(st, hist, rec):
        for lv in (2,):
            expect(find(st[0], 3), st[1], rec, repr(hist))
        # reading does not change the tree
        for i in range(3):
            if dict(find(st[0], i + 1).attributes) != st[1][i]:
                rec.fail("changed", "%r: reading changed the attributes to %r" % (hist, dict(find(st[0], i + 1).attributes)))
    ctx.bfs("edits", [[{}, {}, {}], [{"fill": "lime", "stroke": "red"}, {"stroke-width": "1"}, {"fill-opacity": "1"}]], ops, build, apply,
            lambda st: [sorted(a.items()) for a in st[1]], check, depth=ctx.pick(3, 5),
            bound="every history of up to %d of %d attribute edits at three levels" % (ctx.pick(3, 5), len(ops)))

    # moves of whole subtrees are seen at once
    inner = ["svg", "a", "b", "c"]
    own = {"svg": {"stroke": "lime"}, "a": {"fill": "red", "stroke-opacity": "0.5"}, "b": {"fill": "#00f", "stroke-width": "2"}, "c": {}, "r": {"fill-opacity": "0.25"}}
    mops = [(x, y) for x in inner + ["r"] for y in inner + ["document", None] if x != y]

    def mbuild(root):
        N = nd()
        st = {"document": N.Document()}
        for k in inner + ["r"]:
            st[k] = (N.Rect if k == "r" else N.SVG if k == "svg" else N.Group)(**own[k])
        up = dict.fromkeys(inner + ["r"])
        st["up"] = up
        for x, y in root:
            mapply(st, (x, y), None)
        return st

    def above(st, x):
        while x is not None:
            yield x
            x = st["up"].get(x)

    def mapply(st, op, rec):
        x, y = op
        n, old = st[x], st["up"][x]
        if old is not None:
            for i, c in enumerate(st[old]):
                if c is n:
                    del st[old][i]
                    break
        st["up"][x] = y
        if y == "document":
            st["document"].add(n)
            return
        n.parent = None if y is None else st[y]
        if y is not None:
            st[y].append(n)

    def mcheck(st, hist, rec):
        expect(st["r"], [own[x] for x in above(st, "r") if x != "document"][::-1], rec, repr(hist))
    ctx.bfs("moves", [(), (("svg", "document"), ("a", "svg"), ("b", "a"), ("r", "b"))], mops, mbuild, mapply, lambda st: sorted((k, str(v)) for k, v in st["up"].items()), mcheck,
            depth=ctx.pick(4, 6), enabled=lambda st, op: op[1] != st["up"][op[0]] and op[0] not in above(st, op[1]),
            bound="every history of up to %d of %d moves of an element or group with all below it to under another, into the document or out of any" % (ctx.pick(4, 6), len(mops)))

    # built and moved elements inherit from where they are
    def built():
        for key in vals:
            for pick in itertools.product((None, 0, 1), repeat=3):
                for how in ("build", "parse", "add"):
                    yield (key, pick, how)

    def builtrun(case, rec):
        key, pick, how = case
        chain = [{key: vals[key][p]} if p is not None else {} for p in pick]
        if how == "add":
            N = nd()
            d = N.Document()
            svg = N.SVG(**chain[0])
            svg.g(**chain[1])
            svg[0].rect(**chain[2])
            d.add(svg)
        else:
            d = load(to_xml(T("svg", chain[0], [T("g", chain[1])])))
            g = d[0][0]
            if how == "build":
                g.rect(**chain[2])
            else:
                g.parse(io.StringIO(to_xml(T("rect", chain[2]))))
        rec.state(case)
        rec.step()
        expect(d[0][0][0], chain, rec, repr(case))
    ctx.explore("built", built, builtrun, bound="each property at every subset of levels on built, parsed-in and added elements")
    # values of the library as attributes
    def valued():
        for form in range(1, 4):
            for fp in itertools.product((None, 0, 1, 2, 3), repeat=3):
                for op in itertools.product((None, 0, 1, 2), repeat=3) if ctx.thorough else (p for p in itertools.product((None, 0, 1, 2), repeat=3) if p.count(None) > 1):
                    if any(p is not None for p in fp):
                        yield (form, fp, op)

    def valuedrun(case, rec):
        form, fp, op = case
        B, N = bs(), nd()
        paints, parts = ["red", "#0f03", "none", "rgba(1,2,3,0)"], ["0", "0.5", "1"]
        texts, d = [], N.Document()
        at, colors = d, []
        for level, (f, o) in enumerate(zip(fp, op)):
            text, real = {}, {}
            for which in ("fill", "stroke"):
                if f is not None:
                    text[which] = paints[f]
                    c = B.Color(paints[f])
                    colors.append((c, c.value, paints[f]))
                    real[which] = c if form & 1 else paints[f]
                if o is not None:
                    text[which + "-opacity"] = parts[o]
                    real[which + "-opacity"] = float(parts[o]) if form & 2 else parts[o]
            texts.append(text)
            n = (N.SVG, N.Group, N.Rect)[level]()
            n.attributes.update(real)
            if level == 0:
                d.add(n)
            else:
                n.parent = at
                at.append(n)
            at = n
        rec.state(case)
        rec.outcome((form, fp[2], op[2]))
        for turn in range(2):
            rec.step()
            rec.compared(2)
            for name, g in (("fill", at.fill), ("stroke", at.stroke)):
                c, o = nearest(texts, name), nearest(texts, name + "-opacity")
                w = colour(c, o)
                p = paint_of(g)
                if p != w and not (p is not None and w is not None and p[:3] == w[:3] and abs(p[3] - w[3]) <= 1):
                    rec.fail("objects %s" % name, "%s: %s is %r, expected %r" % (texts, name, p, w))
            # what is answered is the asker's, what was given the giver's
            for c, v, text in colors:
                if c.value != v:
                    rec.fail("objects given", "%s: the colour %s given is now %s" % (texts, text, c))
    ctx.explore("objects", valued, valuedrun, bound="4 colours and 3 opacities as Color objects or numbers or both at every subset of three levels")
    ctx.assumptions.append("style sheets, the style attribute and the keywords inherit and currentColor are not resolved by this version of the library")


# -- P45 -------------------------------------------------------------------------------
POSITIONAL = {
    "rect": ["x", "y", "width", "height", "rx", "ry"],
    "circle": ["cx", "cy", "r"],
    "ellipse": ["cx", "cy", "rx", "ry"],
    "line": ["x1", "y1", "x2", "y2"],
    "polyline": ["points"],
    "polygon": ["points"],
    "path": ["d"],
}
SPELL = {"clipPath": ["clipPath", "clip_path"], "linearGradient": ["linearGradient", "lineargradient"], "radialGradient": ["radialGradient", "radialgradient"]}


def P45(ctx):
    N = nd()
    args = {"d": ["M0,0L1,1z", ""], "points": ["0,0 1,1", "0,0"]}

    def cases():
        for tag in CLASSES:
            pos = POSITIONAL.get(tag, [])
            for name in SPELL.get(tag, [tag]):
                for k in range(len(pos) + 1):
                    for vals in ([[0, 1, 2, 3, 4, 5], ["1", "2", "3", "4", "5", "6"], [1.5, -2, 0, 0.25, 1e3, 7]] if tag not in ("path", "polyline", "polygon")
                                 else [[v] for v in args[pos[0]]]):
                        for kw in ({}, {"id": "k"}, {"fill": "red", "stroke-width": "2"}, {"stroke-width": 3, "class": "c"}, "rest"):
                            if kw == "rest":
                                kw = {p: str(i) for i, p in enumerate(pos[k:])}
                                if not kw:
                                    continue
                            for parent in ("svg", "g", "defs", "foo", "document", "detached", "constructor"):
                                yield (tag, name, vals[:k], kw, parent)

    def one(case, rec):
        tag, name, vals, kw, parent = case
        attrs = {p: str(v) for p, v in zip(POSITIONAL.get(tag, []), vals)}
        attrs.update({k: str(v) for k, v in kw.items()})
        if parent == "document":
            d = load("<svg/>")
            p = d
        elif parent in ("detached", "constructor"):
            d = None
            p = N.Group(id="p")
        else:
            d = load(to_xml(T("svg", {}, [T(parent, {"id": "p"}, [T("rect", {"x": "7"})])] if parent != "svg" else [T("rect", {"x": "7"})])))
            p = d[0][0] if parent != "svg" else d[0]
        before = [id(n) for n in p]
        rec.state(case)
        rec.step()
        rec.compared(6)
        if parent == "constructor":
            n = getattr(N, CLASSES[tag])(*vals, **kw)
            if n.parent is not None or len(n):
                rec.fail("linked", "%r: a new node has a parent or children" % (case,))
        else:
            getattr(p, name)(*vals, **kw)
            if [id(n) for n in p][:-1] != before or len(p) != len(before) + 1:
                return rec.fail("place", "%r: the new node is not the last child" % (case,))
            n = p[-1]
            if n.parent is not p or n.document is not (d if d is not None else None):
                rec.fail("links", "%r: parent %r document %r" % (case, type(n.parent), type(n.document)))
            if d is not None and "id" in kw and d.get_element_by_id("k") is not n:
                rec.fail("id", "%r: not found by id" % (case,))
        # same as parsing
        t = T(tag, attrs)
        q = load(to_xml(T("svg", {}, [t])))[0][0]
        if type(n) is not type(q) or n.tag() != q.tag():
            rec.fail("class", "%r: %s, parsing gives %s" % (case, type(n).__name__, type(q).__name__))
        if {str(k): str(v) for k, v in n.attributes.items()} != attrs:
            rec.fail("attributes", "%r: %r, expected %r" % (case, n.attributes, attrs))
        e = ET.fromstring(str(n))
        if (e.tag, dict(e.attrib), len(e)) != (tag, attrs, 0):
            rec.fail("xml", "%r: %s" % (case, n))
    def zeros():
        for tag, pos in POSITIONAL.items():
            if len(pos) > 1:
                for zero in (0, 0.0, "0", ""):
                    for k in range(1, len(pos) + 1):
                        for which in itertools.product((0, 1), repeat=k):
                            for parent in ("g", "constructor"):
                                yield (tag, tag, [3 if w else zero for w in which], {}, parent)
    ctx.explore("zeros", zeros, one, bound="every builder and class x every combination of zero, empty and other positional arguments")
    ctx.explore("builders", cases, one, bound="every builder and class x every number of positional arguments x numbers and text x 5 keyword sets x 7 parents")

    # programs of builder calls
    ops = []
    for tag, vals in (("g", []), ("rect", [1, 2, 3, 4]), ("text", []), ("line", [0, 1, 2, 3]), ("clip_path", []), ("path", ["M0,0"])):
        for at in ("root", "last", "parent of last"):
            ops.append((tag, vals, at))

    def build(root):
        t = T("svg", {"id": "s"})
        return [load(to_xml(t)), t, [t]]

    def apply(st, op, rec):
        tag, vals, at = op
        live, model = flatten(st[0][0]), list(st[1].walk())
        if at == "root":
            i = 0
        elif at == "last":
            i = len(live) - 1
        else:
            p = model[-1].parent or model[0]
            i = [j for j, x in enumerate(model) if x is p][0]
        n = len(model)
        getattr(live[i], tag)(*vals, id="b%d" % n)
        real = {"clip_path": "clipPath"}.get(tag, tag)
        a = {p: str(v) for p, v in zip(POSITIONAL.get(real, []), vals)}
        a["id"] = "b%d" % n
        model[i].add(T(real, a))

    def strs(t):
        return t

    def check(st, hist, rec):
        rec.compared()
        d, t = st[0], st[1]
        e = ET.fromstring(str(d[0]))
        if et_canon(e, False) != t.canon(False):
            rec.fail("program", "%r: %s" % (hist, d[0]))
        live = flatten(d[0])
        for n, m in zip(live, t.walk()):
            if d.get_element_by_id(m.attrs["id"]) is not n:
                rec.fail("program id", "%r: %r" % (hist, m.attrs["id"]))
            if n.document is not d:
                rec.fail("program document", "%r" % (hist,))
    ctx.bfs("programs", [0], ops, build, apply, lambda st: st[1].canon(), check, depth=ctx.pick(4, 5),
            bound="every program of up to %d of %d builder calls on the root, the last element and its parent" % (ctx.pick(4, 5), len(ops)))
    ctx.assumptions.append("attribute names are passed as they are written in SVG; names with a hyphen through **{...}")


# -- P46 -------------------------------------------------------------------------------
def P46(ctx):
    N = nd()
    media = ["png", "jpg", "jpeg", "svg+xml"]
    alphabet = [0, 1, 0x3f, 0x7f, 0x80, 0xfb, 0xff]

    def payloads():
        yield b""
        for n in (1, 2, 3):
            for p in itertools.product(alphabet, repeat=n):
                yield bytes(p)
        for n in range(4, 70):
            yield bytes((i * 37 + n) % 256 for i in range(n))
        for b in range(256):
            yield bytes([b, 255 - b, b])
        for n in LONG:
            yield bytes((i * 41 + n) % 256 for i in range(n))

    def cases():
        for m in media:
            for p in payloads():
                for key in ("href", "{%s}href" % XLINK):
                    yield (m, p, key)

    def one(case, rec):
        m, p, key = case
        url = "data:image/%s;base64,%s" % (m, base64.b64encode(p).decode("ascii"))
        d = load(to_xml(T("svg", {}, [T("image", {key: url, "width": "1"})])))
        n = d[0][0]
        b = N.Image(**{key: url})
        rec.state(case)
        rec.step()
        for x in (n, b):
            rec.compared(2)
            if x.href != url:
                rec.fail("href", "%r: %r" % (case, x.href))
            if x.data != p:
                rec.fail("data:%s" % m, "%r: %r" % (case, x.data))
    ctx.explore("data", cases, one, bound="4 media types x every payload of up to 3 bytes of 7 values, one of each length to 69, every byte value x 2 link attributes")

    extra = ["width", "id", "transform", "{urn:ext}href", "{urn:ext}kind", "{http://www.w3.org/XML/1998/namespace}space", "{%s}title" % XLINK]

    def among():
        for key in ("href", "{%s}href" % XLINK):
            for n in range(3):
                for more in itertools.permutations(extra, n):
                    for at in range(n + 1):
                        yield (key, more, at)

    def amongrun(case, rec):
        key, more, at = case
        url = "data:image/png;base64,AAEC"
        a = {}
        for i in range(len(more) + 1):
            if i == at:
                a[key] = url
            if i < len(more):
                a[more[i]] = "data:image/png;base64,/////w=="
        d = load(to_xml(T("svg", {}, [T("image", a)])))
        built = N.Image()
        for k, v in a.items():
            built.attributes[k] = v
        rec.state(case)
        rec.step(2)
        rec.outcome(len(more))
        for x in (d[0][0], N.Image(**a), built):
            rec.compared(2)
            if x.href != url or x.data != b"\0\1\2":
                rec.fail("among", "%r: href %r data %r" % (case, x.href, x.data))
    ctx.explore("among others", among, amongrun, bound="both link attributes among all sequences of up to 2 of %d other attributes" % len(extra))

    others = [None, "", "a.png", "data:", "data:image/", "http://h/data:image/png;base64,AAAA", "#x", "data:text/plain;base64,AAAA", "image/png;base64,AAAA"]

    def nodata():
        for o in others:
            for key in ("href", "{%s}href" % XLINK):
                for up in (0, 1):
                    yield (o, key, up)

    def none(case, rec):
        o, key, up = case
        a = {key: o} if o is not None else {}
        p = {key: "data:image/png;base64,AAAA"} if up else {}
        d = load(to_xml(T("svg", p, [T("image", a)])))
        n = d[0][0]
        rec.state(case)
        rec.step()
        rec.compared(2)
        if n.href != o:
            rec.fail("href", "%r: %r" % (case, n.href))
        if n.data is not None:
            rec.fail("data", "%r: %r" % (case, n.data))
    ctx.explore("no data", nodata, none, bound="%d links without embedded data" % len(others))
    # asked, given another link, and asked again
    def link(k, v):
        def f(n):
            n.attributes.pop(k, None)
            if v is not None:
                n.attributes[k] = v
        return ("%s = %s" % (k, v), f)
    one64, two64 = "data:image/png;base64," + base64.b64encode(b"one").decode(), "data:image/svg+xml;base64," + base64.b64encode(b"two").decode()
    asked.explore(ctx, "asked", [("with href", lambda: N.Image(href=one64)), ("with xlink:href", lambda: load('<svg xmlns:xlink="http://www.w3.org/1999/xlink"><image xlink:href="%s"/></svg>' % two64)[0][0]), ("empty", lambda: N.Image())],
                  [link(k, v) for k in ("href", "{%s}href" % XLINK) for v in (one64, two64, "file.png", None)], [("data", lambda n: n.data), ("href", lambda n: n.href)], ctx.pick(2, 3))


# -- P47 -------------------------------------------------------------------------------
def P47(ctx):
    N = nd()
    pieces = [("L", ((5, 1),)), ("l", ((-2, 3), (1, 1))), ("C", ((1, 5, 4, 6, 8, 2),)), ("S", ((1, 1, 6, 3),)), ("Q", ((4, 7, 6, 3),)), ("t", ((2, 8),)),
              ("A", ((5, 3, 30, 0, 1, 7, 4),)), ("a", ((2, 4, -20, 1, 0, 3, 2),)), ("A", ((0, 3, 0, 0, 0, 9, 9),)), ("H", ((-7,),)), ("v", ((4,),)), ("Z", ()), ("M", ((30, 30),)), ("m", ((-20, 2),))]
    ways = ["loaded", "in a group", "builder", "class", "positional", "late"]

    def make(text, way):
        t = T("svg", {"d": "M0,0 L1,1", "transform": "scale(2)", "viewBox": "0 0 9 9"}, [T("path", {"d": text, "id": "p"})])
        if way == "loaded":
            return load(to_xml(t))[0][0]
        if way == "in a group":
            return load(to_xml(T("svg", {}, [T("g", {"transform": "rotate(30)"}, [T("defs", {}, t.kids)])])))[0][0][0][0]
        if way == "class":
            return N.Path(d=text)
        if way == "positional":
            return N.Path(text, fill="red")
        doc = load(to_xml(T("svg", {}, [])))
        if way == "builder":
            doc[0].path(d=text)
            return doc[0][-1]
        doc[0].path(d="M9,9L8,8")
        n = doc[0][-1]
        n.segments(), n.bbox()
        n.attributes["d"] = text
        return n

    def check(n, refs, what, rec):
        before = dict(n.attributes)
        d = n.d
        for turn in range(2):
            rec.compared(2)
            bad = obs.path_diff(n.segments(False), refs)
            if bad:
                return rec.fail("segments", "%s: %s" % (what, bad))
            boxes = [ref_path.seg_bbox(r) for r in refs if r[0] != "M" and not (r[0] == "A" and ref_path.arc_center(*r[1:]) is None)]
            boxes += [r[1] + r[1] for r in refs if r[0] == "A" and ref_path.arc_center(*r[1:]) is None]
            w = None if not boxes else (min(b[0] for b in boxes), min(b[1] for b in boxes), max(b[2] for b in boxes), max(b[3] for b in boxes))
            g = n.bbox(False)
            if (g is None) != (w is None) or g is not None and any(abs(x - y) > 1e-6 * max(1, abs(y)) for x, y in zip(g, w)):
                return rec.fail("box", "%s: box %s, expected %s" % (what, g, w))
            # what is done to the segments is not done to the element
            if turn == 0:
                p = n.segments(False)
                p *= "scale(3)"
                if len(p) > 1:
                    del p[1]
        if dict(n.attributes) != before or n.d != d:
            rec.fail("mutates", "%s: attributes became %s" % (what, n.attributes))

    def cases():
        for depth in range(0, ctx.pick(3, 4)):
            for body in itertools.product(range(len(pieces)), repeat=depth):
                for way in ways:
                    yield (body, way)

    def one(case, rec):
        body, way = case
        cmds = (("M", ((1, 2),)),) + tuple(pieces[i] for i in body)
        text = ref_path.text(cmds)
        rec.state(case)
        rec.step(2)
        rec.outcome((way, len(body)))
        check(make(text, way), ref_path.run(cmds).segs, "%s path element d=%r" % (way, text), rec)
    ctx.explore("paths", cases, one, bound="all path data of up to %d of %d pieces x 6 ways to make the element" % (ctx.pick(2, 3), len(pieces)))

    # the transform of the element
    from .shapes import MATS

    def moved_cases():
        for depth in range(0, ctx.pick(3, 4)):
            for body in itertools.product(range(len(pieces)), repeat=depth):
                for mi in range(len(MATS)):
                    for way in ("loaded", "class") if depth < 3 else ("loaded",):
                        yield (body, way, mi)

    def moved(case, rec):
        body, way, mi = case
        cmds = (("M", ((1, 2),)),) + tuple(pieces[i] for i in body)
        text = ref_path.text(cmds)
        n = make(text, way)
        if MATS[mi][0] is not None:
            n.attributes["transform"] = MATS[mi][0]
        rec.state(case)
        rec.outcome((mi, len(body)))
        drawn(n, ref_path.run(cmds).segs, MATS[mi][1], "%s path element d=%r transform=%s" % (way, text, MATS[mi][0]), rec)

    def drawn(n, refs, m, what, rec):
        from .shapes import ap, arc_box
        before = dict(n.attributes)
        for turn in range(2):
            for segs, box in ((n.segments(), n.bbox()), (n.segments(True), n.bbox(transformed=True))):
                rec.step(2)
                rec.compared(2)
                bad = obs.linkage(segs)
                if bad:
                    return rec.fail("linkage", "%s: %s" % (what, bad))
                if [obs.kind(s) for s in segs] != [r[0] for r in refs]:
                    return rec.fail("moved kinds", "%s: %r" % (what, list(segs)))
                for s, r in zip(segs, refs):
                    for t in (0.0, 0.3, 0.5, 0.8, 1.0) if r[0] != "M" else (1.0,):
                        p, q = ap(m, ref_path.seg_point(r, t)), s.point(t) if r[0] != "M" else s.end
                        if not (abs(p[0] - q[0]) <= 1e-6 and abs(p[1] - q[1]) <= 1e-6):
                            return rec.fail("moved place", "%s: %r at %s is %s, expected %s" % (what, s, t, q, p))
                pts = []
                for r in refs:
                    if r[0] == "A" and len(ref_path.arc_center(*r[1:]) or ()) > 1:
                        pts += arc_box(r, m)
                    elif r[0] != "M":
                        b = ref_path.seg_bbox((r[0],) + tuple(ap(m, x) for x in r[1:])) if r[0] != "A" else None
                        pts += [b[:2], b[2:]] if b else [ap(m, r[1]), ap(m, r[-1])]
                e = None if not pts else (min(p[0] for p in pts), min(p[1] for p in pts), max(p[0] for p in pts), max(p[1] for p in pts))
                if (box is None) != (e is None) or e is not None and any(abs(x - y) > 1e-5 for x, y in zip(box, e)):
                    return rec.fail("moved box", "%s: box %s, expected %s" % (what, box, e))
            if turn == 0:
                p = n.segments()
                p *= "scale(3)"
        if dict(n.attributes) != before:
            rec.fail("mutates", "%s: attributes became %s" % (what, n.attributes))
    ctx.explore("transforms", moved_cases, moved, bound="all path data of up to %d of %d pieces x %d transforms" % (ctx.pick(2, 3), len(pieces), len(MATS)))

    # a path of the library instead of its text
    def object_cases():
        from .shapes import MATS
        for depth in range(0, ctx.pick(3, 4)):
            for body in itertools.product(range(len(pieces)), repeat=depth):
                for form in ("path", "subpath"):
                    for way in ("class", "positional", "builder", "late") if depth < 3 else ("class",):
                        for mi in (0, 4) if depth < 2 or ctx.thorough else (0,):
                            yield (body, form, way, mi)

    def obj(case, rec):
        import svgio.path as S
        body, form, way, mi = case
        cmds = (("M", ((1, 2),)),) + tuple(pieces[i] for i in body)
        text = ref_path.text(cmds)
        path = S.Path(text)
        d = path if form == "path" else path.subpath(0)
        was = obs.snap_path(path)
        n = make(d, way)
        if mi:
            n.attributes["transform"] = MATS[mi][0]
        rec.state(case)
        rec.step(2)
        rec.outcome((form, way, mi, len(body)))
        if form == "subpath" and len(list(path.as_subpaths())) > 1:
            return rec.skip("more than one subpath")
        refs = ref_path.run(cmds).segs
        what = "%s path element d=%s of %r" % (way, form, text)
        check(n, refs, what, rec)
        drawn(n, refs, MATS[mi][1], what, rec)
        rec.compared()
        if not obs.same_snap(obs.snap_path(path), was):
            rec.fail("given", "%s: the path given is now %r" % (what, path.d()))
    ctx.explore("path objects", object_cases, obj, bound="all path data of up to %d of %d pieces as a Path or a Subpath x 4 ways" % (ctx.pick(2, 3), len(pieces)))

    def many(case, rec):
        cmds = large.cmds(*case)
        rec.state(case)
        rec.step()
        check(make(ref_path.text(cmds), "loaded"), ref_path.run(cmds).segs, "path element of %d %s" % (case[1], case[0]), rec)
    ctx.explore("large", lambda: large.cases(ctx, 1025), many, timeout=60, bound="8 kinds of path of up to %d segments or subpaths and around powers of two to 1024" % (ctx.pick(20, 70) - 1))

    def empty(case, rec):
        d, way = case
        n = N.Path(**({} if d is None else {"d": d})) if way == "class" else load(to_xml(T("svg", {"d": "M0,0L5,5"}, [T("path", {} if d is None else {"d": d})])))[0][0]
        rec.state(case)
        rec.step()
        rec.compared(2)
        if len(n.segments(False)) != (1 if d and d.strip() else 0) or n.bbox(False) is not None:
            rec.fail("empty", "%r: segments %r, box %r" % (case, list(n.segments(False)), n.bbox(False)))
    ctx.explore("nothing drawn", lambda: ((d, w) for d in (None, "", " ", "\n", "M3,4", " m 3 4 ") for w in ("class", "loaded")), empty, bound="6 values of d that draw nothing")

    # several elements of a document, changed in any order
    texts = ["M0,0 L4,4", "M1,1 C1,5 4,6 8,2 z", "M9,9 Q2,2 3,7 M-5,-5"]

    def programs():
        for n in range(1, ctx.pick(4, 6)):
            for ops in itertools.product([(i, k) for i in range(2) for k in (0, 1, 2, "look")], repeat=n):
                yield ops

    def prog(ops, rec):
        t = T("svg", {}, [T("path", {"d": texts[0]}), T("g", {}, [T("path", {"d": texts[0]})])])
        doc = load(to_xml(t))
        nodes = [doc[0][0], doc[0][1][0]]
        now = [0, 0]
        for i, k in ops:
            rec.step()
            if k == "look":
                nodes[i].segments(False), nodes[i].bbox(False)
            else:
                nodes[i].attributes["d"] = texts[k]
                now[i] = k
        rec.state(tuple(ops))
        for i in range(2):
            check(nodes[i], segs[now[i]], "element %d after %s" % (i, ops), rec)
    segs = [ref_path.run(c).segs for c in ((("M", ((0, 0),)), ("L", ((4, 4),))), (("M", ((1, 1),)), ("C", ((1, 5, 4, 6, 8, 2),)), ("z", ())), (("M", ((9, 9),)), ("Q", ((2, 2, 3, 7),)), ("M", ((-5, -5),))))]
    ctx.explore("edits", programs, prog, bound="every program of up to %d writes and looks at two elements" % ctx.pick(3, 5))
