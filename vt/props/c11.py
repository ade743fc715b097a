"""C11: HTMLDocument builds one head/body and hoists every dependency into head."""
from copy import deepcopy

from ..build import H, build_seq
from ..core import cps, guarded, uncps
from ..deps import DepGen, V, dep_id
from ..gen import A, HT, META, RP, TAG, T, TreeGen
from .render import pages

KW = [("lang", V("str", "en")), ("class_", V("str", "a b")), ("data_foo", V("str", "<\"&'>")),
      ("id", V("html", "x&amp;y")), ("hidden", V("true")), ("dir", V("none")), ("tabindex", V("num", "3")),
      ("style", V("str", "a:b;")), ("title", V("str", "")), ("data_empty", V("html", "")), ("prefix_", V("str", " ")),
      ("manifest", V("num", "0")), ("v", V("num", "0.0")), ("spellcheck", V("false")),
      # other spellings of the same names, given in one call
      ("class", V("str", "c<d")), ("data-foo", V("html", "&lt;")), ("data_foo_", V("str", "'")), ("_lang", V("str", "q")),
      ("aria__label__", V("str", "z")), ("id_", V("true"))]


def kwargs(r):
    out = []
    for n, v in r.sample(KW, r.choice([0, 0, 1, 2, 3])):
        out.append({"n": cps(n), "v": v})
    return out


class DocGen:
    def __init__(self, r, max_nodes=14, tgf=0.0, nested=0.1, valid=True, headcontent=True):
        self.r, self.tgf, self.hc = r, tgf, headcontent
        self.g = TreeGen(r, max_nodes=max_nodes, max_depth=5, valid=valid, lists=True,
                         leaves={"text": 6, "html": 2, "repr": 1, "meta": 1, "num": 1},
                         names=["div", "span", "p", "ul", "li", "br", "hr", "img", "script", "style", "pre",
                                "table", "b", "header"],
                         text="abc<&> ", attr_text="ab\"<&' ")
        self.d = DepGen(r, nested=nested, tgf=tgf, bare=0.08)

    def sprinkle(self, c, n=None):
        """Insert dependency nodes at random positions."""
        r = self.r
        c = deepcopy(c)
        for _ in range(r.choice([0, 0, 1, 2, 3, 5]) if n is None else n):
            x = c
            while True:
                sub = [y for y in x if y["k"] in ("tag", "list")]
                if sub and r.random() < 0.6:
                    x = r.choice(sub)["c"]
                else:
                    break
            if self.hc and r.random() < 0.25:
                nd = self.d.headcontent([r.choice([TAG("title", True, T("A")), HT("<x>"), T("s & t"),
                                                   TAG("style", True, T("b{}"))])])
            else:
                nd = self.d.node()
            x.insert(r.randint(0, len(x)), nd)
        return c

    def body(self):
        r = self.r
        return TAG("body", r.random() < 0.85, *self.g.forest(), a=self.g.attributes(),
                   via=r.choice(["ctor", "append", "insert"]))

    def headtag(self):
        r = self.r
        kids = [r.choice([TAG("title", True, T("u<ser")), TAG("meta", True), HT("<link>"), T("tx"),
                          TAG("style", True, T("x{}")), TAG("script", True), RP("<r>"),
                          TAG("meta", r.random() < 0.5, a=[A("charset", r.choice(["utf-8", "latin1", ""]))]),
                          HT('<meta charset="utf-8"/>'),
                          TAG("script", True, T("jq[1.0]"), a=[A("type", "application/html-dependencies")])])
                for _ in range(r.choice([0, 1, 2, 3]))]
        return TAG("head", r.random() < 0.85, *kids, a=self.g.attributes())

    def content(self):
        r = self.r
        k = r.random()
        if k < 0.3:
            c = self.g.forest()
        elif k < 0.45:
            c = [self.body()]
        elif k < 0.85:
            kids = []
            if r.random() < 0.7:
                kids.append(self.headtag())
            if r.random() < 0.8:
                kids.append(self.body())
            if r.random() < 0.15:
                kids.append(T("tail"))
            if r.random() < 0.15:
                kids.insert(0, r.choice([T("lead"), HT("<!-- c -->"), dict(META)]))
            c = [TAG("html", r.random() < 0.9, *kids, a=self.g.attributes(),
                     via=r.choice(["ctor", "append", "insert", "nested", "children"]))]
        elif k < 0.9:
            c = [r.choice([T("x"), TAG("p", True)]), TAG("html", True, self.headtag(), self.body())]
        elif k < 0.95:
            c = [self.body(), r.choice([T("y"), TAG("p", True, T("z"))])]
        else:
            c = []
        sole = len(c) == 1 and c[0]["k"] == "tag" and uncps(c[0]["n"]) in ("html", "body")
        if sole:
            # "sole content": keep dependencies inside
            c[0]["c"] = self.sprinkle(c[0]["c"])
            if r.random() < 0.2:
                c = [{"k": "list", "t": "list", "c": c}, {"k": "none"}]
        else:
            c = self.sprinkle(c)
        return c


def prefix_of(r):
    return r.choice(["lib", "lib", "", None, "a/b", "p/", "/abs", "x.y"])


def line(c, kw, prefix, iv, r):
    def go():
        kids = build_seq(c)
        k = {uncps(a["n"]): H_val(a["v"]) for a in kw}
        if r.random() < 0.3:
            d = H.HTMLDocument(**k)
            if kids and r.random() < 0.5:
                d.append(*kids)
            else:
                for x in kids:
                    d.append(x)
                    if r.random() < 0.3:
                        # what was rendered so far leaves no trace
                        r.choice([lambda: d.render(), lambda: d.render(lib_prefix=prefix, include_version=iv)])()
        else:
            d = H.HTMLDocument(*kids, **k)
        args = {}
        if prefix != "lib" or r.random() < 0.5:
            args["lib_prefix"] = prefix
        if not iv or r.random() < 0.5:
            args["include_version"] = iv
        return d.render(**args)
    ok, v = guarded(go)
    ids = []
    if ok:
        ok2, ids = guarded(lambda: [dep_id(d) for d in v["dependencies"]])
    html = v["html"] if ok else ""
    return {"in": {"c": c, "kw": kw, "prefix": prefix, "iv": iv}, "q": "doc", "c": c, "kw": kw,
            "prefix": cps(prefix or ""), "iv": iv,
            "out": {"ok": ok and isinstance(html, str), "s": cps(html) if isinstance(html, str) else [],
                    "e": "" if ok else str(v)},
            "deps": {"ok": ok, "ids": ids if isinstance(ids, list) else [], "e": ""}}


def H_val(v):
    from ..build import attr_value
    return attr_value(v)


def check(ctx):
    r = ctx.rng
    cases = ctx.model("MCDoc", "MCDoc", consts={"MaxNodes": ctx.pick(4, 5), "EmitOn": True},
                      invariants=["OneHtml", "OneHead", "HoistedOnce", "BodyHasNoDeps", "Emit"])
    lines = []
    if len(cases) > ctx.pick(2500, 40000):
        cases = r.sample(cases, ctx.pick(2500, 40000))
    for c in cases:
        lines.append(line(c, kwargs(r) if r.random() < 0.3 else [], prefix_of(r), r.random() < 0.7, r))
    for i in range(ctx.pick(2500, 30000)):
        g = DocGen(r, max_nodes=r.choice([4, 10, 16]), tgf=r.choice([0, 0, 0.3]), valid=r.random() < 0.85)
        lines.append(line(g.content(), kwargs(r), prefix_of(r), r.random() < 0.7, r))
    # realistic pages, many dependencies, deep ones
    for c in pages(r, ctx.pick(150, 3000), shared=False, valid=False):
        g = DocGen(r, max_nodes=4)
        k = r.random()
        c = g.sprinkle(c, r.choice([0, 1, 3, 12]))
        if k < 0.35:
            c = [TAG("html", True, g.headtag(), TAG("body", True, *c, a=g.g.attributes()), a=g.g.attributes())]
        elif k < 0.6:
            c = [TAG("body", True, *c, a=g.g.attributes())]
        lines.append(line(c, kwargs(r), prefix_of(r), r.random() < 0.7, r))
    for n in (15, 45):
        for _ in range(ctx.pick(2, 10)):
            g = DocGen(r, max_nodes=4, nested=0)
            c = g.sprinkle([TAG("div", True, TAG("p", True)), TAG("span", False)], n)
            x = g.d.node()
            for i in range(n):
                x = TAG(r.choice(["div", "span", "p", "section"]), True, *([T("t")] if r.random() < 0.3 else []), x)
            lines.append(line(c + [x], kwargs(r), prefix_of(r), r.random() < 0.7, r))
    ctx.judge("JudgeDoc", "DocVerdict", lines)
    ctx.assumptions += ["sole content means exactly one node (a dependency next to <html> is a second one)",
                        "link rel is stylesheet; URL-safe names and paths (C12 decides encoding)",
                        "at most one <head> among the children of a user's <html>"]
