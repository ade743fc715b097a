"""Trees as people write them: pages, tables, forms, lists, menus, drawings, with the
attributes and texts these have.  The generators of gen.py are uniform over shapes;
these are not, and so reach combinations that uniform choice never makes."""
from __future__ import annotations

from .catalog import ATTRS, INLINE
from .gen import A, HT, META, RP, TAG, T, VOID
from .core import cps

WORDS = """the of and a to in is it you that was for on are with as I his they be at one have this from or had by hot
word but what some we can out other were all there when up use your how said an each she which do their time if will
way about many then them write would like so these her long make thing see him two has look more day could go come did
number sound no most people my over know water than call first who may down side been now find""".split()
TEXTS = ["http://example.com/a?b=1&c=2", "https://h.org/?q=a&amp;b#frag", "mailto:a@b.c", "<a@b.example>", "Tom & Jerry", "R&D",
         "AT&T", "a < b", "a > b", "x <= y && y >= z", "if (a < b) { return a & b; }", "for (i=0;i<n;i++)", "{\"k\": [1, \"<v>\"]}",
         "$12.50", "50%", "1,234.5", "-3", "+1", "007", "2024-01-02T03:04:05Z", "12:30", "C:\\dir\\x", "a/b/c.txt", "~", "...", "…",
         "“quoted”", "it's", "\"q\"", "naïve café", "日本語", "مرحبا", "emoji 😀", "e\u0301", "\u00a0", "\u200b", "\u00ad", "© 2024",
         "&copy; 2024", "&nbsp;", "&#169;", "&#xA9;", "&amp;", "&lt;b&gt;", "&notanentity;", "&", "&&", "<", ">", "<b>bold</b>", "<br>",
         "<br/>", "</p>", "<!-- c -->", "<!doctype html>", "<![CDATA[x]]>", "<?xml?>", "<script>", "</script>", "<%= x %>", "{{ x }}",
         "${x}", "`x`", "@user", "#tag", "*bold*", "_em_", "[l](u)", "- item", "1. item", "|a|b|", "\\n", "\\u003c", "%3Cb%3E", "%s", "%d",
         "line 1\nline 2", "line 1\r\nline 2", "tab\there", "  two  spaces  ", " lead", "trail ", "\n\n", "", " ", "0", "None", "True", "False",
         "null", "NaN", "undefined", "a=b&c=d", "a;b", "x\u2028y", "\x00", "\x7f", "\ufeffbom", "A" * 70, "word " * 60, "x<" * 40,
         "He said \"no\" & left; it's <b>over</b> there & 'here' for good", "x = \"a\"\n" * 12, "it's \"5 > 3\" & <so> on\r\n" * 30,
         "a&b " * 600, "z" * 2500 + "<"]
SNIPS = ["<b>bold</b>", "<div>block</div>", "<div>\n  <p>x</p>\n</div>", "<div></div>\n", "\n<div></div>", "</div>", "<br>", "<br/>", "<hr>",
         "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<svg xmlns=\"http://www.w3.org/2000/svg\"><path d=\"M0\"/></svg>",
         "<!DOCTYPE html>\n<p>x</p>", "<!doctype html>", "<html><body>x</body></html>", "<head></head>", "<body>", "<!-- comment -->",
         "<!--[if IE]><p>IE</p><![endif]-->", "<![CDATA[x]]>", "<script>\n  if (a < b && c > d) { x(); }\n</script>",
         "<script src=\"a.js\"></script>", "<style>\n  a > b { c: d; }\n</style>", "<style></style>", "<link rel=\"stylesheet\" href=\"x.css\">",
         "<meta charset=\"utf-8\"/>", "<table><tr><td>1</td></tr></table>", "<pre>\n a\n  b\n</pre>", "<pre>\n\n</pre>", "<textarea>\n x </textarea>",
         "<a href=\"?a=1&b=2\">x</a>", "<a href='?a=1&amp;b=2'>x</a>", "<img src=x alt=\"&quot;\">", "&nbsp;", "&nbsp;&nbsp;x", "&copy;", "&#169;",
         "&lt;b&gt;", "&amp;amp;", "&", "<", ">", "\"", "'", "x <i>y</i> z", "<i>a</i><i>b</i>", "  <b>x</b>  ", "\t<b>x</b>\t", "<p>a</p>\r\n<p>b</p>",
         "\r\n", "<P CLASS=X>upper</P>", "<my-element></my-element>", "<svg:rect/>", "<input disabled>", "{{ mustache }}", "{% tag %}",
         "<%= erb %>", "<?php echo 1 ?>", "$1", "\\1", "\\g<0>", "%s %d", "{0}", "", " ", "\n", "0", "None", "<b>" * 40 + "x" + "</b>" * 40,
         "<td>cell</td>" * 60, "\u00a0", "\u2028<b>", "\ufeff<b>", "<b>\x00</b>", "<i>日本</i>", "```\n<b>\n```", "# h1\n<p>"]
INERTS = ["word", "Hello", "some text here", "42", "x", "a b c", "lorem ipsum dolor", "", " ", "line 1\nline 2", "end.", "word " * 30,
          "x" * 700, "tab\there", "0", "café", "it's", "  two  spaces  ", "item 1"]
URLS = ["#", "/", "/a/b", "a.html", "https://example.com/?a=1&b=2", "http://h/", "javascript:void(0)", "mailto:x@y.z", "data:image/png;base64,AA==",
        "../x?y=z#f", "//cdn/x.js", "a b.html", "x%20y", "tel:+1", "#id:x", "?q=\"x\"", "it's.html", "&amp;", "a&copy=1"]
CLASSES = ["btn", "btn-primary", "row", "col-md-6", "container-fluid", "active", "d-none", "w-1/2", "hover:bg-[#fff]", "is-open", "a_b", "x--y"]
STYLES = ["color:red;", "width: 10px; height:5%;", "background:url('a.png');", "margin:0 auto !important;", "--v: 1;",
          "font-family: \"A B\", serif;", "content:'<>&';", "display:none", ""]
VALUES = {
    "class": lambda r: " ".join(r.choice(CLASSES) for _ in range(r.randint(1, 4))),
    "style": lambda r: "".join(r.choice(STYLES) for _ in range(r.randint(1, 3))),
    "id": lambda r: r.choice(["main", "x1", "a-b", "a:b", "a.b", "é", "1"]),
    "title": lambda r: r.choice(TEXTS), "alt": lambda r: r.choice(TEXTS), "placeholder": lambda r: r.choice(TEXTS),
    "value": lambda r: r.choice(TEXTS), "content": lambda r: r.choice(TEXTS), "aria-label": lambda r: r.choice(TEXTS),
    "onclick": lambda r: r.choice(["f('x')", "a < b && c(\"d\");", "return false;", "x()\ny()", "if (a>b) alert(1)"]),
    "data-json": lambda r: r.choice(["{\"a\": [1, \"<\"]}", "[]", "{}", "null", "\"s\"", "{'a': 'b'}"]),
    "type": lambda r: r.choice(["text", "checkbox", "button", "submit", "module", "text/css", "text/javascript", "application/json"]),
    "tabindex": lambda r: r.choice(["0", "-1", "3"]), "for": lambda r: r.choice(["x1", "main"]),
    "role": lambda r: r.choice(["button", "tab", "alert", "presentation"]), "lang": lambda r: r.choice(["en", "fr-CA", ""]),
    "checked": lambda r: r.choice(["", "checked"]), "disabled": lambda r: r.choice(["", "disabled", "true"]),
    "d": lambda r: "M0 0 L 10,10 Z", "viewBox": lambda r: "0 0 10 10", "points": lambda r: "0,0 1,1",
}
for _n in ("href", "src", "action", "xlink:href", "data-url", "srcset"):
    VALUES[_n] = lambda r: r.choice(URLS)
COMMON = ["class", "id", "style", "title", "href", "src", "type", "name", "value", "data-json", "onclick", "role", "tabindex", "aria-label",
          "lang", "hidden", "data-id", "for", "alt", "rel", "target", "disabled", "checked", "width", "height", "placeholder", "data-url"]


class Page:
    """inert: texts without metacharacters (for the layout properties);
    leaves: which non-text leaves may occur; rawtext: text of script/style is inert."""

    def __init__(self, r, *, inert=False, leaves=("html", "repr", "meta", "num"), valid=True, attr_inert=False, one_raw=False):
        self.r, self.inert, self.leaves, self.valid = r, inert, leaves, valid
        self.attr_inert, self.one_raw = attr_inert, one_raw

    # ---- texts and values
    def s(self):
        r = self.r
        if self.inert:
            return r.choice(INERTS)
        k = r.random()
        if k < 0.5:
            return r.choice(TEXTS)
        w = [r.choice(WORDS) for _ in range(r.choice([1, 2, 5, 12, 40]))]
        for _ in range(r.choice([0, 0, 1, 2])):
            w.insert(r.randint(0, len(w)), r.choice(TEXTS[:60]))
        return " ".join(w)

    def value(self, n):
        r = self.r
        if self.attr_inert:
            return r.choice(["a", "b c", "x-1", "", "10"])
        if n in VALUES and r.random() < 0.85:
            return VALUES[n](r)
        return r.choice([r.choice(TEXTS), "", "x", "10", "true", r.choice(URLS)])

    def attrs(self, *first):
        r = self.r
        n = r.choice([0, 0, 1, 1, 2, 3, 4, 6, 9, 14])
        pool = COMMON if r.random() < 0.85 else ATTRS
        names = list(dict.fromkeys(list(first) + r.sample(pool, min(n, len(pool)))))
        if r.random() < 0.3:
            r.shuffle(names)
        return [A(x, self.value(x)) for x in names]

    def ws(self, name):
        ws = name not in INLINE
        return ws if self.r.random() < 0.92 or (self.valid and not ws) else not ws

    def tag(self, name, *kids, first=(), ws=None):
        kids = list(kids)
        w = self.ws(name) if ws is None else ws
        if self.valid and not w and any(_blocky(k) for k in kids):
            w = True
        return TAG(name, w, *kids, a=self.attrs(*first))

    # ---- leaves
    def text(self):
        return T(self.s())

    def leaf(self):
        r = self.r
        if self.leaves and r.random() < 0.2:
            k = r.choice(self.leaves)
            if k == "html":
                return HT("x" if self.inert else r.choice(["<b>x</b>", "&copy;", "<!-- c -->", "a & b", "<br>\n<br>", "", "<i>" + self.s()]))
            if k == "repr":
                return RP("r" if self.inert else r.choice(["<u>r</u>", "a\n  b\n", "", "<table>\n</table>\n"]))
            if k == "num":
                return {"k": "num", "s": cps(str(r.choice([0, 1, 42, -7, 3.5, 1e22, 10 ** 20])))}
            return dict(META)
        return self.text()

    # ---- phrases and blocks
    def phrase(self, depth=0):
        """An inline run."""
        r = self.r
        out = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            k = r.random()
            if k < 0.5 or depth > 3:
                out.append(self.leaf())
            elif k < 0.6:
                nm = r.choice(["img", "input", "wbr", "br"])
                out.append(self.tag(nm, ws=None if nm != "br" else False))
            else:
                nm = r.choice(["a", "span", "b", "em", "code", "small", "button", "label", "kbd", "q", "i", "strong", "time", "sup", "select", "svg"])
                if nm == "select":
                    out.append(TAG("select", False, *[TAG("option", False, self.text(), a=[A("value", self.value("value"))])
                                                      for _ in range(r.randint(0, 3))]))
                else:
                    out.append(self.tag(nm, *self.phrase(depth + 1), first=("href",) if nm == "a" else (), ws=False))
        return out

    def rawtext(self, n=1):
        r = self.r
        code = ["", "x = 1;", "body { color: red }"] if self.inert or self.one_raw else \
            ["", "if (a < b && c > d) { f(\"x\") }", "body > p { content: '&' }", "/* <b> */", "// x\n// y\n", "var s = '<\\/p>';", "{\"a\": \"<&>\"}"]
        return [T(r.choice(code)) for _ in range(1 if self.one_raw else n)]

    def block(self, depth=0):
        r = self.r
        k = r.choice(["p", "div", "div", "list", "table", "form", "nav", "media", "svg", "pre", "details", "dl", "head", "hr", "script", "article"])
        sub = lambda lo=0, hi=3: [self.block(depth + 1) for _ in range(r.randint(lo, hi))] if depth < 3 else []
        t = self.tag
        if k == "p":
            return t("p", *self.phrase())
        if k == "list":
            return t(r.choice(["ul", "ol"]), *[t("li", *self.phrase(), *sub(0, 1)) for _ in range(r.randint(0, 5))])
        if k == "table":
            row = lambda c, n: t("tr", *[t(c, *(self.phrase(2) if r.random() < 0.5 else [self.text()])) for _ in range(n)])
            n = r.randint(1, 4)
            return t("table", *([t("caption", self.text())] if r.random() < 0.3 else []), t("thead", row("th", n)),
                     t("tbody", *[row("td", n) for _ in range(r.randint(0, 3))]))
        if k == "form":
            fields = [t("div", TAG("label", False, self.text(), a=[A("for", "x1")]), t("input", first=("type", "name", "value"), ws=False))
                      for _ in range(r.randint(0, 3))]
            return t("form", *fields, t("textarea", self.text(), ws=False), t("button", *self.phrase(2), first=("type",), ws=False), first=("action",))
        if k == "nav":
            return t("nav", *[t("a", *self.phrase(2), first=("href",), ws=False) for _ in range(r.randint(1, 4))])
        if k == "media":
            return t("figure", t("img", first=("src", "alt"), ws=False), t("figcaption", *self.phrase()))
        if k == "svg":
            return t("svg", *[t(r.choice(["path", "circle", "g", "linearGradient", "foreignObject"]),
                                *([t("title", self.text())] if r.random() < 0.2 else [])) for _ in range(r.randint(0, 3))],
                     first=("viewBox",), ws=True)
        if k == "pre":
            return t("pre", *(self.phrase() if r.random() < 0.5 else [self.text()]), ws=False)
        if k == "details":
            return t("details", t("summary", *self.phrase()), *sub(0, 2))
        if k == "dl":
            return t("dl", *[y for _ in range(r.randint(0, 3)) for y in (t("dt", self.text()), t("dd", *self.phrase()))])
        if k == "head":
            return t("h%d" % r.randint(1, 6), *self.phrase())
        if k == "hr":
            return t("hr")
        if k == "script":
            return t(r.choice(["script", "style"]), *self.rawtext(r.choice([1, 1, 1, 2])), ws=r.random() < 0.8, first=r.choice([(), ("type",)]))
        if k == "article":
            return t(r.choice(["article", "section", "main", "header", "footer", "aside", "blockquote", "x-card"]), t("h2", *self.phrase()),
                     *sub(0, 3), t("p", *self.phrase()))
        return t("div", *(self.phrase() if r.random() < 0.4 else []), *sub(0, 4), *(self.phrase() if r.random() < 0.3 else []))

    def forest(self):
        r = self.r
        c = []
        for _ in range(r.choice([1, 1, 2, 3])):
            c += [self.block()] if r.random() < 0.8 else self.phrase()
        return c

    def one(self):
        return self.block()


def _blocky(n):
    return n["k"] == "tag" and (n["ws"] or any(_blocky(x) for x in n["c"]))
