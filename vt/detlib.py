"""Constructions for C18: built from abstract descriptions, observed in several ways."""
import copy
import gc
import json
import sys

from . import build as B
from .build import H, HTML, HTMLDependency, Tag, TagList, attr_value, build_seq
from .core import CaseTimeout, uncps
from .deps import real_dep
from .disturb import BY_NAME, Boom, TgfBoom, Unexpanded


class Built:
    pass


def make(c):
    """The real objects of one construction (a fresh set on every call)."""
    B._metas = 0
    o = Built()
    o.c, k = c, c["k"]
    if k == "doc":
        kids = build_seq(c["c"])
        o.doc = H.HTMLDocument(*kids, **{uncps(a["n"]): attr_value(a["v"]) for a in c["kw"]})
        o.kids = kids
        o.x = TagList(*kids)
    elif k == "tags":
        o.x = TagList(*build_seq(c["c"]))
    elif k == "tag":
        o.x = B.build(c["t"])
    elif k == "text":
        o.deps = [real_dep(d) for d in c["deps"]]
        emb = [real_dep(d) for d in c["emb"]]
        body = "".join(str(e.serialize_to_script_json()) for e in emb)
        html = uncps(c["pre"]) + uncps(c["pat"]) + uncps(c["mid"]) + body + uncps(c["post"])
        o.doc = H.HTMLTextDocument(html, o.deps, uncps(c["pat"]))
    elif k == "dep":
        o.dep = real_dep(c["d"])
    elif k == "hc":
        o.dep = H.head_content(*build_seq(c["c"]))
        o.x = TagList(*build_seq(c["c"]))
    elif k == "attrs":
        hist = c["h"]
        t = B.ctor_tag(c["n"], hist[0])
        for op in hist[1:]:
            step(t, op)
        o.x = t
    elif k == "css":
        o.css = (uncps(c["collapse"]), {uncps(a["n"]): attr_value(a["v"]) for a in c["args"]})
    elif k == "vals":
        o.x = Tag(c["n"], *[value(v) for v in c["kids"]], **{n: value(v) for n, v in c["attrs"]})
    elif k == "boom":
        # operations that fail part of the way, over an ordinary construction
        o.kids = build_seq(c["c"])
        o.x = TagList(*o.kids)
        o.way = c["way"]
    elif k == "jsx":
        from htmltools import _jsx
        o.x = jsx(_jsx, c["t"])
    else:
        raise ValueError(k)
    return o


def step(t, o):
    if o["op"] == "remove_class":
        return t.remove_class(attr_value(o["v"]))
    if o["op"] in ("has_class",):
        return t.has_class(attr_value(o["v"]))
    return B.apply_attr(t, o)


def value(v):
    return HTML(v[1]) if isinstance(v, list) and v[0] == "html" else eval(v[1]) if isinstance(v, list) else v


def jsx(J, t):
    if not isinstance(t, dict):
        return t
    if "dep" in t:
        return real_dep(t["dep"])
    if "html" in t:
        return Tag(t["html"], *[jsx(J, x) for x in t["c"]], **t["a"])
    return J.JSXTag(t["jsx"], *[jsx(J, x) for x in t["c"]], **{k: jsx(J, v) for k, v in t["a"].items()})


def depline(d):
    return [d.name, str(d.version)]


METHODS = {
    "doc": ["render", "render@", "str@", "render2", "str", "list", "deps", "deps-raw", "json", "tagify", "repr"],
    "tags": ["str", "str@", "deps@", "json@", "deps", "deps-raw", "json", "tagify", "html-indent", "copy", "repr"],
    "tag": ["str", "str@", "tagify@", "html-indent@", "deps", "deps-raw", "json", "tagify", "html-indent", "copy"],
    "text": ["render", "render@", "render2", "textdeps"],
    "dep": ["name", "dict", "dict2", "tags", "serial", "paths", "drepr", "in-doc"],
    "hc": ["name", "name@", "tags@", "dict", "tags", "serial", "str", "in-doc"],
    "attrs": ["str", "str@", "classes@", "attrs", "classes"],
    "css": ["css"],
    "vals": ["str", "str@", "attrs@", "attrs", "tagify", "in-doc-x"],
    "jsx": ["str", "str@", "deps@", "deps", "tagify"],
    "boom": ["plain", "plain@", "fail-str", "fail-tagify", "fail-raw", "fail-json", "fail-doc", "fail-block", "fail-extend", "other"],
}


def fail(o, m):
    """An operation that fails after some of its work is done."""
    if m == "fail-str":
        return str(Tag("div", "a", o.x, Tag("pre", Tag("i", Boom(), _add_ws=False), o.x)))
    if m == "fail-tagify":
        return str(Tag("div", o.x, Tag("p", o.x, TgfBoom())).tagify())
    if m == "fail-raw":
        return str(Tag("script", "s", o.x, Unexpanded()).get_html_string(1))
    if m == "fail-json":
        H.html_dependency_render_mode = "json"
        try:
            return str(TagList(o.x, HTMLDependency("f", "1", head=[Boom()]), Boom()))
        finally:
            H.html_dependency_render_mode = "invisible"
    if m == "fail-doc":
        return H.HTMLDocument(o.x, Tag("html", Tag("head", o.x, Boom()), Tag("body", o.x))).render()["html"]
    if m == "fail-block":
        old, sys.displayhook = sys.displayhook, lambda x: None
        try:
            with Tag("div") as t:
                for x in o.kids:
                    sys.displayhook(x)
                raise KeyError(str(t))
        finally:
            sys.displayhook = old
    if m == "fail-extend":
        t = TagList(*o.kids)
        t.extend([*o.kids, object()])
    if m == "other":
        BY_NAME[o.way]()
    return "done"


class Inner:
    """Makes an observation while it is being rendered, or expanded."""

    def __init__(self, o, m, expand):
        self.o, self.m, self.out = o, m, None
        if expand:
            self.tagify = self.when_expanded

    def _repr_html_(self):
        self.out = show(self.o, self.m)
        return "inner"

    def when_expanded(self):
        self.out = show(self.o, self.m)
        return Tag("i", "inner")


def inside(o, m):
    """The observation made in the middle of another operation."""
    k = len(json.dumps(o.c)) + len(m)
    x = Inner(o, m, k % 3 == 0)
    outer = [lambda: Tag("script", "a", x), lambda: Tag("pre", "a\n", x, "b", _add_ws=False),
             lambda: Tag("div", Tag("div", Tag("p", "x", x))), lambda: TagList("<", x, HTML("<")),
             lambda: Tag("span", Tag("b", x, _add_ws=False), _add_ws=False), lambda: Tag("style", x, "y")][k // 3 % 6]()
    how = k // 18 % 4
    if how == 0:
        str(outer)
    elif how == 1:
        H.HTMLDocument(outer, lang="zz").render(lib_prefix="zz", include_version=False)
    elif how == 2:
        outer.tagify().get_html_string(5, "\r\n")
    else:
        from htmltools import _jsx
        str(_jsx.JSXTag("Outer", Tag("p", x if k % 3 == 0 else "s"))) if k % 3 == 0 else str(outer)
    return x.out if isinstance(x.out, str) else "!not-called"


def show(o, m):
    """One observation, as a string."""
    c = o.c
    if m.endswith("@"):
        return inside(o, m[:-1])
    if m == "plain":
        return str(o.x)
    if c["k"] == "boom":
        return fail(o, m)
    if m == "render":
        kw = {"lib_prefix": c.get("prefix", "lib"), "include_version": c.get("iv", True)}
        r = o.doc.render(**kw)
        out = json.dumps([r["html"], [depline(d) for d in r["dependencies"]]])
        r["dependencies"].clear()          # the caller owns the result
        return out
    if m == "render2":
        r = o.doc.render()
        return json.dumps([r["html"], [depline(d) for d in r["dependencies"]]])
    if m == "textdeps":
        r = o.doc.render()
        return json.dumps([d.as_dict() for d in r["dependencies"]])
    if m in ("str", "list"):
        return str(o.x)
    if m == "repr":
        return repr(o.x)
    if m == "copy":
        return str(copy.copy(o.x))
    if m == "html-indent":
        return str(o.x.get_html_string(2))
    if m == "deps":
        return json.dumps([depline(d) for d in o.x.tagify().get_dependencies()])
    if m == "deps-raw":
        return json.dumps([depline(d) for d in o.x.tagify().get_dependencies(dedup=False)])
    if m == "tagify":
        return str(o.x.tagify())
    if m == "json":
        H.html_dependency_render_mode = "json"
        try:
            return str(o.x)
        finally:
            H.html_dependency_render_mode = "invisible"
    if m == "name":
        return o.dep.name + " " + str(o.dep.version)
    if m == "dict":
        return json.dumps(o.dep.as_dict())
    if m == "dict2":
        return json.dumps(o.dep.as_dict(lib_prefix=None, include_version=False))
    if m == "tags":
        return str(o.dep.as_html_tags())
    if m == "serial":
        return str(o.dep.serialize_to_script_json())
    if m == "paths":
        return json.dumps(o.dep.source_path_map())
    if m == "drepr":
        return repr(o.dep) + str(o.dep)
    if m == "in-doc":
        r = H.HTMLDocument(Tag("p", o.dep), o.dep).render()
        return json.dumps([r["html"], [depline(d) for d in r["dependencies"]]])
    if m == "in-doc-x":
        return H.HTMLDocument(o.x).render()["html"]
    if m == "attrs":
        return json.dumps([[k, str(v), isinstance(v, HTML)] for k, v in o.x.attrs.items()])
    if m == "classes":
        return json.dumps([o.x.has_class(t) for t in ("a", "b", "ab", "x&y", "btn")])
    if m == "css":
        return json.dumps(H.css(o.css[0], **o.css[1]) if o.css[0] else H.css(**o.css[1]))
    raise ValueError(m)


def spoil(o):
    """The caller changes everything it got hold of."""
    def dep(d, depth=0):
        d.name += "-spoiled"
        for l in (d.script, d.stylesheet, d.meta):
            for it in l:
                it["spoiled"] = "1"
            l.append({"spoiled": "2"})
        if isinstance(d.source, dict):
            d.source["spoiled"] = "x"
        if d.head is not None and isinstance(d.head, TagList):
            walk(d.head, depth + 1)
            d.head.append("spoiled")

    def walk(x, depth=0):
        if depth > 12:
            return
        if isinstance(x, (list, TagList)):
            for y in list(x):
                walk(y, depth + 1)
        elif isinstance(x, Tag):
            walk(x.children, depth + 1)
            x.attrs["spoiled"] = "1"
            x.children.append("spoiled")
            x.name = "spoiled"
        elif isinstance(x, HTMLDependency):
            dep(x, depth)

    for n in ("x", "kids", "dep", "deps"):
        v = getattr(o, n, None)
        if v is None:
            continue
        for y in ([v, v.tagify()] if hasattr(v, "tagify") else [v]):
            walk(y)
    if hasattr(o, "doc"):
        r = o.doc.render()
        for d in r["dependencies"]:
            dep(d)
        r["dependencies"].clear()
    if hasattr(o, "dep"):
        for x in [o.dep.as_dict()]:
            for l in ("script", "stylesheet", "meta"):
                for it in x.get(l) or []:
                    if isinstance(it, dict):
                        it["spoiled"] = "1"


def run_history(battery, job):
    """Execute one history; returns [[construction, method, output], ...]."""
    inst, out = {}, []
    for e in job["hist"]:
        c = job["map"][e["c"] - 1]
        try:
            if e["op"] == "build":
                inst[e["c"]] = make(battery[c])
            elif e["op"] == "trash":
                o = inst.pop(e["c"], None)
                if o is not None:
                    spoil(o)
                del o
                if job.get("gc"):
                    gc.collect()
        except Exception as x:
            if e["op"] == "build":
                out.append([c, "build", "!" + type(x).__name__])
        if e["op"] == "render" and e["c"] in inst:
            ms = METHODS[battery[c]["k"]]
            for m in [ms[i % len(ms)] for i in e["m"]]:
                try:
                    s = show(inst[e["c"]], m)
                except CaseTimeout:
                    raise
                except Exception as x:
                    s = "!" + type(x).__name__
                out.append([c, m.rstrip("@"), s])
    return out
