"""C13: serialised dependencies round-trip through HTML text."""
import re

from ..build import H, HTMLDependency, Tag, TagList, build_seq
from ..core import cps, guarded, outrec, uncps
from ..deps import DepGen, V, item, near, real_dep
from ..gen import HT, META, RP, TAG, T
from .c11 import DocGen

HOST = ["</script>", "</SCRIPT", "</ScRiPt >", "<!--", "-->", "<script>", "\\", '"', "\n", "\r\n", "\r", "\t", "\u2028",
        "é", "日本", "😀", "\0", "\x7f", "<\\/script>", "</scr", "ipt>", "</ script>", "&lt;", "'", "</script\n>",
        "</ſcript>", "\\/", "\\u003c", "{", "}", "]", ";", "%41", "\\1", "\\g<0>", "$&", "<!--deps-->", "</", "a b",
        '<script type="application/json" data-html-dependency="">', "]]>", "\ufeff", "\x1f", "</SCRIPT</script",
        "\\</script>", "\\n", "<", "</style>", "null", "\x85", "\u0130", "</scrıpt>"]


def hs(r, lo=0):
    k = r.random()
    if k < 0.25:
        return r.choice(["x", "foo.js", "a-b", ""][0 if not lo else 0:3 if lo else 4])
    s = "".join(r.choice(HOST + ["a", "b", " "]) for _ in range(r.choice([1, 1, 2, 3])))
    return s


KEYS = ["async", "integrity", "crossorigin", "data_x", "type", "title", "media", "</script>", "a\"b", "é", "x</SCRIPT"]


class HostileDeps(DepGen):
    """Dependencies whose every field may be an arbitrary string."""

    def __init__(self, r, **kw):
        super().__init__(r, nested=0.0, **kw)

    def extra(self, it):
        r = self.r
        for _ in range(r.choice([0, 0, 1, 2])):
            it[r.choice(KEYS)] = r.choice([hs(r), hs(r), V("true"), V("num", "3"), V("false"), V("none")])
        keys = list(it)
        r.shuffle(keys)
        return [{"n": cps(k), "v": it[k] if isinstance(it[k], dict) else V("str", it[k])} for k in keys]

    def dep(self, depth=0):
        r = self.r
        d = super().dep(depth)
        if r.random() < 0.5:
            d["name"] = cps(hs(r, 1))
        if r.random() < 0.6:
            d["script"] = [self.extra({"src": hs(r)}) for _ in range(r.choice([0, 1, 2]))]
        if r.random() < 0.6:
            d["stylesheet"] = [self.extra({"href": hs(r)}) for _ in range(r.choice([0, 1, 2]))]
            if r.random() < 0.3:
                for it in d["stylesheet"]:
                    it.insert(0, {"n": cps("rel"), "v": V("str", "stylesheet")})
        if r.random() < 0.6:
            d["meta"] = d["meta"] + [self.extra({"name": hs(r), "content": hs(r)}) for _ in range(r.choice([0, 1]))]
        if d["src"]["t"] != "none" and r.random() < 0.6:
            d["src"] = dict(d["src"], s=cps(hs(r).replace("\0", "")))    # a path has no NUL
        if r.random() < 0.5:
            k = r.random()
            if k < 0.3:
                d["head"] = [HT(hs(r))]
                d["headstr"] = r.random() < 0.5
            elif k < 0.5:
                d["head"] = [T(hs(r)), TAG("b", False, T(hs(r)))]
            elif k < 0.8:
                d["head"] = [TAG("script", True, T(r.choice(["if (a<b) {'x'}", "let a='\\\\';\n//", "<!--x"]))),
                             TAG("style", True, T("a>b\n{}")), dict(META)]
            else:
                d["head"] = []
            if not (len(d["head"]) == 1 and d["head"][0]["k"] == "html"):
                d.pop("headstr", None)
        d["all_files"] = r.random() < 0.3
        return d


def typed(v):
    if isinstance(v, bool):
        return {"t": "true" if v else "false", "s": []}
    if v is None:
        return {"t": "none", "s": []}
    if isinstance(v, (int, float)):
        return {"t": "num", "s": cps(str(v))}
    if isinstance(v, str):
        return {"t": "str", "s": cps(v)}
    return {"t": "other-" + type(v).__name__, "s": cps(str(v))}


def pyitems(x):
    return [[{"n": cps(str(k)), "v": typed(v)} for k, v in it.items()] for it in x]


def markup_of(head):
    if head is None:
        return {"ok": False, "s": []}
    ok, s = guarded(lambda: TagList(head).get_html_string())
    return {"ok": ok, "s": cps(s) if ok else []}


def fields(dep):
    """The fields of a real dependency."""
    ok, v = guarded(lambda: {
        "name": cps(dep.name), "v": cps(str(dep.version)),
        "source": [] if dep.source is None else pyitems([dep.source]), "script": pyitems(dep.script),
        "stylesheet": pyitems(dep.stylesheet), "meta": pyitems(dep.meta), "all": dep.all_files,
        "hm": markup_of(dep.head)})
    if not ok or not isinstance(v["all"], bool):
        return {"name": [], "v": [], "source": [], "script": [], "stylesheet": [], "meta": [], "all": False,
                "hm": {"ok": False, "s": cps("unreadable")}}
    return v


def wanted(d, real):
    """The abstract dependency with everything a recovered one must have."""
    s = d["src"]
    src = []
    if s["t"] == "href":
        src = [item(href=V("str", uncps(s["s"])))]
    elif s["t"] == "sub":
        it = {"subdir": V("str", uncps(s["s"]))}
        if s.get("pkg"):
            it["package"] = V("str", "htmltools")
        elif s.get("nopkg"):
            it["package"] = V("none")
        src = [item(**it)]
    out = {"name": d["name"], "v": d["v"], "m": d["m"], "src": {"t": s["t"], "s": s["s"]}, "source": src,
           "script": d["script"], "stylesheet": d["stylesheet"], "meta": d["meta"], "all": bool(d.get("all_files")),
           "hm": markup_of(real.head), "head": d.get("head", [])}
    return out


def embed(r, dep, tag=None):
    """The text of one serialised element, produced in one of the ways there are."""
    k = r.random()
    ind = r.choice([None, None, None, 0, 1, 2, 4])
    if ind is not None and r.random() < 0.3:
        # saved with other line ends (strings in JSON have no raw line breaks)
        return dep.serialize_to_script_json(indent=ind).get_html_string().replace("\n", r.choice(["\r\n", "\r", " "]))
    if k < 0.5:
        return str(dep.serialize_to_script_json(indent=ind) if ind is not None else dep.serialize_to_script_json())
    if k < 0.8:
        return dep.serialize_to_script_json(indent=ind).get_html_string()
    return dep.serialize_to_script_json(ind).render()["html"]


def head_of_document(deps, prefix, iv):
    """The listing and markup a real HTMLDocument puts into <head>, one document per dependency
    (a document keeps one dependency per name)."""
    def listing(ds):
        return ('<script type="application/html-dependencies">' + ";".join(f"{d.name}[{d.version}]" for d in ds)
                + "</script>")

    def go():
        out = listing(deps) if deps else ""
        for d in deps:
            h = H.HTMLDocument(d).render(lib_prefix=prefix, include_version=iv)["html"]
            a = h.index('<meta charset="utf-8"/>') + len('<meta charset="utf-8"/>')
            x = h[a:h.rindex("</head>")].lstrip()
            if not x.startswith(listing([d])):
                raise ValueError("listing")
            out += x[len(listing([d])):]
        return out
    ok, s = guarded(go)
    return {"ok": ok, "s": cps(s) if ok else []}


PH = ["<!--deps-->", '<meta name="x">', "{{ deps }}", "(.*)", "\\1", "[deps]", "$", "<", "é", "PLACEHOLDER"]
TEXTS = ["<html>", "<head>", "</head>", "\n", "  ", "<body>", "x < y & z", "</script>", "<script>", "\\1 \\g<0>", "日本",
         '<script type="application/json">{"a": 1}</script>', '<script data-html-dependency="" type="application/json">{}</script>',
         '<SCRIPT TYPE="application/json" DATA-HTML-DEPENDENCY="">{}</SCRIPT>', "<!--", "-->", "\r\n", '{"name": "x"}',
         '<script type="application/html-dependencies">a[1]</script>', "<pre> a\n  b </pre>", "", "%s {0}"]


def text_line(r, segs, deps, real, given, ph, prefix, iv):
    """segs: [text] or [index]"""
    lines = []
    out_segs, bad = [], None
    cache = {}
    for s in segs:
        if isinstance(s, str):
            out_segs.append({"t": "text", "s": cps(s), "d": 0})
        else:
            # copies repeat an earlier serialisation or are made anew
            if s in cache and r.random() < 0.6:
                e = cache[s]
            else:
                ok, e = guarded(lambda: embed(r, real[s]))
                if not ok or not isinstance(e, str):
                    bad = str(e)
                    break
                cache[s] = e
            out_segs.append({"t": "ser", "s": cps(e), "d": s + 1})
    rec = []
    again = {"ok": False, "s": [], "e": ""}
    if bad is None:
        text = "".join(uncps(s["s"]) for s in out_segs)
        kw = {"lib_prefix": prefix, "include_version": iv}

        def go():
            ds = [real[g] for g in given]

            def make_doc():
                if given or r.random() < 0.3:
                    return H.HTMLTextDocument(text, deps=ds, deps_replace_pattern=ph)
                return H.HTMLTextDocument(text, deps_replace_pattern=ph)
            # the same text and list, before and after
            doc = make_doc()
            for _ in range(r.choice([0, 0, 1, 2])):
                w = r.choice([doc, make_doc()]).render(**(kw if r.random() < 0.5 else {}))
                if r.random() < 0.6:
                    # a result belongs to who asked for it
                    for d in w["dependencies"]:
                        d.name += "-changed"
                        d.meta.append({"name": "changed", "content": "1"})
                        for it in d.script:
                            it["src"] = "changed"
                    w["dependencies"].clear()
            if r.random() < 0.3:
                doc = make_doc()
            v = doc.render(**kw)
            if r.random() < 0.3:
                make_doc()
            return v["html"], v["dependencies"], doc.render(**kw)["html"]
        ok, v = guarded(go)
        out = {"ok": ok and isinstance(v[0], str), "s": cps(v[0]) if ok and isinstance(v[0], str) else [],
               "e": "" if ok else str(v)}
        if ok:
            rec = [fields(d) for d in v[1]]
            again = {"ok": True, "s": cps(v[2]), "e": ""}
    else:
        out = {"ok": False, "s": [], "e": "serialize-" + bad}
    order, seen = [], set()
    for s in out_segs:
        if s["t"] == "ser" and tuple(s["s"]) not in seen:
            seen.add(tuple(s["s"]))
            order.append(s["d"] - 1)
    direct = head_of_document([real[i] for i in list(given) + order], prefix, iv)
    return {"in": {"segs": segs, "deps": deps, "given": given, "ph": ph, "prefix": prefix, "iv": iv}, "q": "text",
            "segs": out_segs, "deps": [wanted(d, x) for d, x in zip(deps, real)], "given": [g + 1 for g in given],
            "ph": cps(ph), "prefix": cps(prefix or ""), "iv": iv, "out": out, "rec": rec, "again": again,
            "direct": direct}


def make(gen, n):
    r = gen.r
    deps = []
    for i in range(n):
        deps.append(near(r, r.choice(deps), 1000 + i) if deps and r.random() < 0.25 else gen.dep())
    return deps, [real_dep(d) for d in deps]


class json_mode:
    def __enter__(self):
        self.old = H.html_dependency_render_mode
        H.html_dependency_render_mode = "json"

    def __exit__(self, *a):
        H.html_dependency_render_mode = self.old


def json_line(r):
    g = DocGen(r, max_nodes=r.choice([4, 10]), tgf=r.choice([0, 0, 0.3]), headcontent=True)
    if r.random() < 0.5:
        g.d = HostileDeps(r)
    c = g.sprinkle(g.g.forest(), r.choice([0, 1, 2, 3, 5]))
    prefix, iv = r.choice(["lib", "lib", None, "", "a/b"]), r.random() < 0.7
    how = r.choice(["taglist", "tag", "body"])
    ph = r.choice(["<!--deps-->", '<meta name="deps">', "((deps))"])

    def obj():
        kids = build_seq(c)
        return Tag("div", *kids) if how == "tag" else TagList(*kids)

    def direct():
        v = H.HTMLDocument(obj()).render(lib_prefix=prefix, include_version=iv)
        return v["html"], v["dependencies"]

    els = []

    def post():
        x = obj()
        show = r.choice([str, str, lambda t: t._repr_html_(), repr])
        with json_mode():
            s = show(x)
        if how == "body":
            with json_mode():
                s = show(TagList("", x))
        els.extend(re.findall(r'<script type="application/json" data-html-dependency="">.*?</script>', s, re.S))
        t = ('<!DOCTYPE html>\n<html>\n  <head>\n    <meta charset="utf-8"/>\n    ' + ph + "\n  </head>\n  <body>\n" + s
             + "\n  </body>\n</html>")
        v = H.HTMLTextDocument(t, deps_replace_pattern=ph).render(lib_prefix=prefix, include_version=iv)
        return v["html"], v["dependencies"]
    ok1, a = guarded(direct)
    ok2, b = guarded(post)
    want = [fields(d) for d in a[1]] if ok1 else []
    return {"in": {"c": c, "prefix": prefix, "iv": iv, "how": how}, "q": "json",
            "direct": {"ok": ok1, "s": cps(a[0]) if ok1 else []},
            "out": {"ok": ok2, "s": cps(b[0]) if ok2 else [], "e": "" if ok2 else str(b)},
            "rec": [fields(d) for d in b[1]] if ok2 else [],
            "want": want,
            "els": [cps(e) for e in els]}


def check(ctx):
    r = ctx.rng
    words = ctx.model("MCSerial", consts={"MaxSegs": ctx.pick(3, 4), "EmitOn": True},
                      invariants=["AllSealed", "Recovers", "Once", "FirstOnly", "Emit"])
    lines = []
    piece = {"x": "a<b>&amp;", "nl": "\n ", "ph": "<!--deps-->", "op": '<script type="application/json">', "cl": "</script>",
             "hd": "<head></head>", "ch": "<!-", "em": "-deps-->"}
    n = ctx.pick(1300, 12000)
    words = [w for w in words if any(k in "123" for k in w)]
    if len(words) > n:
        words = r.sample(words, n)
    for w in words:
        g = HostileDeps(r)
        deps, real = make(g, 3)
        segs = [int(k) - 1 if k in "123" else piece[k] for k in w]
        lines.append(text_line(r, segs, deps, real, [], "<!--deps-->", "lib", True))
    for _ in range(ctx.pick(1500, 20000)):
        g = HostileDeps(r) if r.random() < 0.7 else DepGen(r, nested=0)
        n = r.choice([1, 2, 3, 4])
        deps, real = make(g, n)
        ph = r.choice(PH)
        segs = []
        for _ in range(r.choice([1, 2, 4, 8, 14])):
            k = r.random()
            segs.append(r.randrange(n) if k < 0.4 else ph if k < 0.5 else r.choice(TEXTS))
        given = r.sample(range(n), r.choice([0, 0, 1, n]))
        lines.append(text_line(r, segs, deps, real, given, ph, r.choice(["lib", None, "", "a/b", "p/"]), r.random() < 0.7))
    for _ in range(ctx.pick(700, 8000)):
        lines.append(json_line(r))
    # large dependencies, many of them
    for n in (4, 70, 260, 800):
        for _ in range(ctx.pick(4, 8)):
            g = HostileDeps(r)
            deps, real0 = make(g, 3)
            d = deps[1]
            k = r.choice(["script", "meta", "head", "text"]) if n < 800 else r.choice(["script", "meta"])
            if k == "script":
                d["script"] = [g.extra({"src": f"s{i}.js"}) for i in range(n)]
            elif k == "meta":
                d["meta"] = d["meta"] + [item(name=f"n{i}", content=hs(r)) for i in range(n)]
            elif k == "head":
                d["head"] = [TAG("script", True, T("x" * 10 + f"</b>{i}")) for i in range(n)]
                d.pop("headstr", None)
            else:
                d["meta"] = d["meta"] + [item(name="long", content="ab</script " * (n * 10))]
            real = [real_dep(x) for x in deps]
            lines.append(text_line(r, ["<html>", 0, "a" * n, 1, "<!--deps-->", 2, 1], deps, real, [], "<!--deps-->", "lib", True))
    for n in (20, 60):
        g = DepGen(r, nested=0)
        deps, real = make(g, n)
        segs = list(range(n)) + [0, 1, "x"]
        r.shuffle(segs)
        lines.append(text_line(r, segs + ["<!--deps-->"], deps, real, [], "<!--deps-->", "lib", True))
    for _ in range(ctx.pick(1500, 10000)):
        g = HostileDeps(r)
        d = g.dep()
        real = real_dep(d)
        lines.append({"in": {"d": d}, "q": "ser", "el": outrec(lambda: embed(r, real))})
    ctx.judge("JudgeSerial", "SerialVerdict", lines, chunk=8000)
    ctx.assumptions += ["item values are JSON values (no HTML() objects), no lone surrogates",
                        "whitespace between rendered tags may differ between JSON mode and direct rendering",
                        "explicit deps have no dependencies inside their head"]
