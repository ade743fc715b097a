"""C03: attribute values are inert, single-line, and decode to the original."""
from ..build import H, apply_attr, ctor_tag
from ..catalog import ATTRS, ELEMENTS
from ..core import cps, outrec, uncps
from ..gen import PLAIN, VOID, TAG, T
from ..page import COMMON, SNIPS, TEXTS, URLS, VALUES
from .render import extreme_trees, long_strings, pages, render_obs, used_before


def V(t, s="", **kw):
    return {"t": t, "s": cps(s), **kw}


def P(n, v):
    return {"n": cps(n), "v": v}


def attr_line(name, sup, path="ghs"):
    def go():
        t = ctor_tag(name, sup[0])
        for o in sup[1:]:
            apply_attr(t, o)
        return {"ghs": t.get_html_string, "str": t.__str__,
                "render": lambda: t.render()["html"],
                "copy": lambda: __import__("copy").copy(t).get_html_string(),
                "tagify": lambda: t.tagify().get_html_string(),
                "list": lambda: H.TagList(t).get_html_string()}[path]()
    return {"in": {"name": name, "sup": sup, "path": path}, "q": "attr", "n": cps(name),
            "sup": sup, "out": outrec(go)}


PATHS = ["ghs", "ghs", "str", "render", "copy", "tagify", "list"]
NAMES = ["id", "class", "style", "data-x", "title", "href", "x-y", "on-click", "srcset"]
LOOK = ["\"", "'", "<", ">", "&", "\r", "\n", "\r\n", "\" onload=\"x", "a&amp;b", "&#10;",
        "><script>", "'/>", "\"/><b x=\"", "a\nb\rc", "&quot;", "&lt", "&&", "\\\"", "\x00", "\t",
        "\x0b\x0c", "\u2028\u2029\x85", "é", "", " ", "a b", "javascript:alert('x')", "{\"k\": \"v\"}"]


def ctor(*args, kw=False, **x):
    return {"op": "ctor", "args": [list(a) for a in args], "kw": kw, **x}


class OpGen:
    """Random supply operations for one tag."""

    def __init__(self, r, alphabet, names=NAMES, html_p=0.2, special=True):
        self.r, self.al, self.names, self.html_p, self.special = r, alphabet, names, html_p, special

    def s(self):
        r = self.r
        if r.random() < 0.2:
            return r.choice(LOOK)
        return "".join(r.choice(self.al) for _ in range(r.randint(0, 6)))

    def value(self):
        r = self.r
        k = r.random()
        if k < self.html_p:
            return V("html", r.choice(["a&amp;b", "<i>", "x", "&quot;", "a b", "'", ""]))
        if self.special and k < self.html_p + 0.2:
            return r.choice([V("none"), V("true"), V("false"),
                             V("num", r.choice(["0", "1", "3.5", "-2", "1e+22", "inf", "1.0", "0.0", "100", "-1", "1e-07", "nan", "-inf",
                                                   "1234567.891", "3.141592653589793", "12345678", "1e+16", "1234567890123456.0", "0.1"]))])
        return V("str", self.s(), **({"sub": True} if r.random() < 0.1 else {}))

    def arg(self, names=None, n=None):
        r = self.r
        ns = list(dict.fromkeys(r.choice(names or self.names) for _ in range(n or r.randint(1, 3))))
        return [P(nm, self.value()) for nm in ns]

    def ctor(self):
        r = self.r
        args = [self.arg() for _ in range(r.randint(0, 3))]
        return ctor(*args, kw=bool(args) and r.random() < 0.5,
                    as_attrdict=False)

    def op(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            args = [self.arg() for _ in range(r.randint(1, 3))]
            return {"op": "update", "args": args, "kw": r.random() < 0.4}
        if k < 0.6:
            return {"op": "set", "n": cps(r.choice(self.names)), "v": self.value()}
        v = V("html" if r.random() < self.html_p else "str", self.s())
        if k < 0.8:
            return {"op": "add_class", "v": v, "prepend": r.random() < 0.4}
        v["s"] = v["s"] + [59]
        return {"op": "add_style", "v": v, "prepend": r.random() < 0.4}

    def sup(self, n=None):
        return [self.ctor()] + [self.op() for _ in range(self.r.randint(0, 3) if n is None else n)]


def check(ctx):
    r = ctx.rng
    lines = []
    tags = PLAIN + VOID + ["script", "style", "pre"]

    def add(sup, name=None):
        lines.append(attr_line(name or r.choice(tags), sup, r.choice(PATHS)))

    def ways(s):
        """Supply the plain string s through every path, alone or merged."""
        v, h, p = V("str", s), V("html", "h&amp;"), V("str", "p")
        return [
            [ctor([P("id", v)])],
            [ctor([P("id", v)], kw=True)],
            [ctor(), {"op": "update", "args": [[P("id", v)]], "kw": False}],
            [ctor(), {"op": "update", "args": [[P("id", v)]], "kw": True}],
            [ctor([P("id", p)]), {"op": "set", "n": cps("id"), "v": v}],
            [ctor(), {"op": "add_class", "v": v, "prepend": False}],
            [ctor([P("class", p)]), {"op": "add_class", "v": v, "prepend": True}],
            [ctor(), {"op": "add_style", "v": V("str", s + ";"), "prepend": False}],
            [ctor([P("id", v)], [P("id", p)])],
            [ctor([P("id", p)], [P("id", v)], kw=True)],
            # merged with HTML()
            [ctor([P("id", v)], [P("id", h)])],
            [ctor([P("id", h)], [P("id", v)])],
            [ctor([P("id", h)], [P("id", v)], [P("id", v)], kw=True)],
            [ctor([P("id", v)], [P("id", v)], [P("id", h)])],
            [ctor([P("class", h)]), {"op": "add_class", "v": v, "prepend": False}],
            [ctor([P("class", h)]), {"op": "add_class", "v": v, "prepend": True}],
            [ctor([P("class", v)]), {"op": "add_class", "v": h, "prepend": False}],
            [ctor([P("style", V("html", "a:b&amp;;"))]),
             {"op": "add_style", "v": V("str", s + ";"), "prepend": False}],
            [ctor([P("style", v)]),
             {"op": "add_style", "v": V("html", "a:b;"), "prepend": True}],
            [ctor([P("class", v)]), {"op": "add_class", "v": h, "prepend": True},
             {"op": "add_class", "v": V("str", s), "prepend": False}],
        ]

    strings = []
    for chars, n in ctx.pick([([38, 60, 34, 39, 10, 13, 97], 3)],
                             [([38, 60, 62, 34, 39, 10, 13, 97, 59, 32], 4)]):
        strings += ctx.model("MCText", f"MCText {len(chars)} code points, length <= {n}",
                             consts={"Chars": set(chars), "MaxLen": n, "EmitOn": True},
                             invariants=["AttrInert", "Emit"])
    for s in strings:
        s = uncps(s)
        lines.append({"in": {"s": cps(s)}, "q": "esca", "s": cps(s),
                      "out": outrec(lambda: H.html_escape(s, attr=True))})
        for sup in r.sample(ways(s), 3):
            add(sup)
    for s in LOOK:
        for nm in ("div", "br", "script", "a"):
            for sup in ways(s):
                add(sup, nm)
    for a in LOOK:
        for b in LOOK:
            add([ctor([P("id", V("str", a))], [P("id", V(r.choice(["str", "html"]), b))])])
    # every usual attribute and element name
    for nm in ATTRS:
        for s in r.sample(LOOK, 3) + ["\"\n'<>&\r"]:
            add([ctor([P(nm, V("str", s))], kw=r.random() < 0.5)], r.choice(ELEMENTS))
        add([ctor([P(nm, V("html", "h"))], [P(nm, V("str", "\"\n'<>&\r"))])], r.choice(ELEMENTS))
        add([ctor([P(nm, r.choice([V("true"), V("none"), V("false"), V("num", "0"), V("str", "")]))])], r.choice(ELEMENTS))
    for nm in ELEMENTS:
        for s in ("\"\n'<>&\r", r.choice(LOOK)):
            add([ctor([P(r.choice(["id", "alt", "href"]), V("str", s))])], nm)
    # single characters everywhere
    for i in range(0, 0x180):
        for sup in (r.sample(ways(chr(i)), 2) if i >= 0x80 else ways(chr(i))):
            add(sup)
    # every code point, in blocks, plain and merged with HTML
    blk = 256
    for lo in range(0, 0x110000, blk):
        s = "".join(chr(i) for i in range(lo, lo + blk) if not 0xD800 <= i < 0xE000)
        if s:
            add([ctor([P("id", V("str", s))])], "div")
            if lo < 0x3000 or not ctx.quick:
                add([ctor([P("id", V("str", s))], [P("id", V("html", "h"))])], "span")
                lines.append({"in": {"s": cps(s)}, "q": "esca", "s": cps(s),
                              "out": outrec(lambda: H.html_escape(s, True))})
    # True / None / False / numbers
    for v in [V("none"), V("true"), V("false")] + [
            V("num", str(x)) for x in (0, 1, -5, 10 ** 25, 1.5, 0.0, 1e-9, float("nan"), float("inf"))]:
        for w in [V("none"), V("true"), V("false"), V("num", "7"), V("str", "s\""), V("html", "&lt;")]:
            add([ctor([P("id", v)], [P("id", w)])])
            add([ctor([P("x", V("str", "k"))], [P("id", w)], kw=True),
                 {"op": "set", "n": cps("id"), "v": v}])
            add([ctor([P("id", w)]), {"op": "update", "args": [[P("id", v), P("b", w)]], "kw": False}])
    g = OpGen(r, "&<>\"'\r\nab ;=é/")
    for _ in range(ctx.pick(4000, 60000)):
        add(g.sup())
    # realistic attributes
    def real(nm):
        k = r.random()
        if k < 0.5 and nm in VALUES:
            return V("str", VALUES[nm](r))
        if k < 0.85:
            return V("str", r.choice(TEXTS if r.random() < 0.7 else URLS + SNIPS))
        return V("html", r.choice(["a&amp;b", "x", "a b", "&lt;b&gt;", "", "https://x/?a=1&amp;b=2", "color:red;", "f(&quot;x&quot;)"])) if k < 0.93 else g.value()

    def some(n):
        return [P(nm, real(nm)) for nm in dict.fromkeys(r.choice(COMMON if r.random() < 0.85 else ATTRS) for _ in range(n))]
    for _ in range(ctx.pick(3000, 40000)):
        a = some(r.choice([1, 2, 3, 6, 10]))
        args = [a]
        if r.random() < 0.4:        # the same attributes again
            args.append([P(uncps(x["n"]), real(uncps(x["n"]))) for x in r.sample(a, r.randint(1, len(a)))])
        ops = []
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            x = r.choice(a)
            nm = uncps(x["n"])
            ops.append(r.choice([{"op": "set", "n": x["n"], "v": real(nm)},
                                 {"op": "update", "args": [[P(nm, real(nm))], some(2)], "kw": False},
                                 {"op": "add_class", "v": real("class"), "prepend": r.random() < 0.4},
                                 {"op": "add_style", "v": V(r.choice(["str", "html"]), r.choice(["color:red;", "background:url('a\"b');", "a:b&c;"])), "prepend": r.random() < 0.4}]))
        if any(o["op"] == "add_class" and o["v"]["t"] not in ("str", "html") for o in ops):
            ops = []
        add([ctor(*args, kw=len(args) > 1 and r.random() < 0.5)] + ops, r.choice(ELEMENTS))
    for c in pages(r, ctx.pick(300, 4000), valid=False):
        path = r.choice(["ghs", "str", "render"])
        lines.append({"in": {"c": c, "path": path, "top": "list"}, "q": "loose", "clause": "attribute-rendering",
                      "c": c, "out": render_obs("list", c, path=path)})
    # nested in trees, next to other content
    for _ in range(ctx.pick(1000, 10000)):
        inner = TAG(r.choice(PLAIN), r.random() < 0.5, T("t"))
        inner["sup"] = g.sup()
        outer = TAG(r.choice(PLAIN), r.random() < 0.5, inner, T("u"))
        outer["sup"] = g.sup()
        path = r.choice(["ghs", "str", "render"])
        lines.append({"in": {"c": [outer], "path": path}, "q": "loose", "clause": "attribute-rendering",
                      "c": [outer], "out": render_obs("tag", [outer], path=path)})
    # strings met before in another role
    for s in used_before(r, ctx.pick(500, 5000)):
        add(r.choice(ways(s)))
    # long values; attributes of deep and wide trees
    for h in ("\"", "<", "\n", "'", "\r", "&quot;"):
        for s in long_strings(h):
            for sup in r.sample(ways(s), 3):
                add(sup)

    def tagged():
        t = TAG(r.choice(PLAIN), r.random() < 0.5)
        t["sup"] = [ctor([P("id", V("str", r.choice(LOOK)))])]
        return [t]
    for t in extreme_trees(r, tagged, ctx.quick):
        lines.append({"in": {"c": [t]}, "q": "loose", "clause": "attribute-rendering", "c": [t],
                      "out": render_obs("tag", [t], path=r.choice(["ghs", "str"]))})
    ctx.judge("JudgeText", "TextVerdict", lines)
    ctx.assumptions += ["attribute names are syntactically valid", "lone surrogates are not text"]
