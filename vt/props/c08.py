"""C08: rendering and tagify are pure; tagify returns an independent copy; ==."""
import copy
import os
import shutil
import tempfile
from types import SimpleNamespace
from copy import deepcopy

from .. import build as B
from ..build import H, HTML, HTMLDependency, Tag, TagList, build, build_seq
from ..core import cps, digest, guarded, scratch, uncps
from ..deps import V
from ..gen import A, HT, META, RP, TAG, T
from ..heap import Heap
from ..page import Page
from .c09 import ExpGen
from .c11 import KW, kwargs

FILES = ("a.js", "b/c.js", "x_y.min.js", "s.css", "css/t.css")


def source_dir():
    d = os.path.join(scratch(), "src")
    if not os.path.isdir(d):
        for f in FILES:
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as fo:
                fo.write("// " + f)
    return d


class Gen(ExpGen):
    def __init__(self, r, **kw):
        super().__init__(r, **kw)
        d, base = self.d, self.d.source

        def source():
            s = base()
            if s["t"] == "sub":
                s["s"] = cps(source_dir())
            return s
        d.source = source

    def tree(self):
        r = self.r
        c = self.content()
        if r.random() < 0.35:
            c = self.place(deepcopy(c))
        return c


class PageGen(Gen):
    """Pages as people write them, with dependencies in them."""

    def content(self):
        r = self.r
        g = Page(r, valid=self.g.valid)
        return self.sprinkle([g.one()] if r.random() < 0.6 else g.forest(), r.choice([0, 1, 1, 2, 4]))


class BigGen(Gen):
    """Large structures, each in one direction."""

    def __init__(self, r, **kw):
        super().__init__(r, **kw)
        self.n = r.choice([33, 65, 130, 260])

    def content(self):
        r, n = self.r, self.n
        k = r.choice(["wide", "deep", "long", "longattr", "attrs", "deps", "nested"])
        leaf = [TAG("b", False, T("x"))]
        if k == "wide":
            c = [r.choice([T("t%d" % i), TAG("li", True, T("i%d" % i)), HT("<i>%d" % i)]) for i in range(n)]
        elif k == "deep":
            c = leaf
            for i in range(n // 3):
                c = [TAG("div", True, *c)]
        elif k == "long":
            c = [r.choice([T, HT])("word & <w> " * (n * r.choice([1, 4, 10])))]
        elif k == "longattr":
            c = [TAG("a", False, T("x"), a=[A("data-x", "v & \"" * n)])]
        elif k == "attrs":
            c = [TAG("a", False, T("x"), a=[A("data-%d" % i, str(i)) for i in range(n)])]
        elif k == "deps":
            c = [self.d.node() for _ in range(n // 8)]
        else:
            c = [TAG("ul", True, *[TAG("li", True, T("q"), TAG("i", False, T(str(i)))) for i in range(n // 4)])]
        c = c if r.random() < 0.5 else [TAG("div", True, *c, T("end"))]
        return c + ([T("last")] if r.random() < 0.3 else [])


def depval(d):
    return [d.name, str(d.version), repr(d.source), d.script, d.stylesheet, d.meta, d.all_files,
            None if d.head is None else d.head.tagify().get_html_string()]


def reads_of(x, r):
    """Names and thunks of the read-only operations of an object."""
    iv, pre = r.choice([True, False]), r.choice(["lib", None, "p/q"])
    out = []
    if isinstance(x, (Tag, TagList)):
        ind, eol = r.choice([(0, "\n"), (2, "\r\n"), (1, "")])
        out += [("render", "", lambda: (lambda v: [v["html"], [depval(d) for d in v["dependencies"]]])(x.render())),
                ("str", "", lambda: str(x)), ("repr", "", lambda: repr(x)), ("_repr_html_", "", lambda: x._repr_html_()),
                ("get_dependencies", "", lambda: [depval(d) for d in x.get_dependencies()]),
                ("get_dependencies", "nodedup", lambda: [depval(d) for d in x.get_dependencies(dedup=False)]),
                ("tagify-html", f"{ind}{eol!r}", lambda: x.tagify().get_html_string(ind, eol))]
        if not has_tgf(x):
            out.append(("get_html_string", f"{ind}{eol!r}", lambda: x.get_html_string(ind, eol)))
        out.append(("save_html", f"{pre}{iv}", lambda: saved(x, pre, iv)))
    if isinstance(x, H.HTMLDocument):
        out += [("render", f"{pre}{iv}", lambda: (lambda v: [v["html"], [depval(d) for d in v["dependencies"]]])(
                    x.render(lib_prefix=pre, include_version=iv))),
                ("render", "libTrue", lambda: (lambda v: [v["html"], [depval(d) for d in v["dependencies"]]])(x.render())),
                ("save_html", f"{pre}{iv}", lambda: saved(x, pre, iv)),
                ("doc-copy-render", "", lambda: copy.copy(x).render()["html"])]
    if isinstance(x, HTMLDependency):
        out += [("source_path_map", f"{pre}{iv}", lambda: x.source_path_map(lib_prefix=pre, include_version=iv)),
                ("repr", "", lambda: repr(x))]
        if x.head is None or not has_tgf(x.head):
            ind = r.choice([None, 2])
            out += [("as_html_tags", f"{pre}{iv}", lambda: str(x.as_html_tags(lib_prefix=pre, include_version=iv))),
                    ("str", "", lambda: str(x)), ("as_dict", f"{pre}{iv}", lambda: x.as_dict(lib_prefix=pre, include_version=iv)),
                    ("serialize", str(ind), lambda: str(x.serialize_to_script_json(indent=ind)))]
    return out


def saved(x, pre, iv):
    d = tempfile.mkdtemp(dir=scratch())
    try:
        f = os.path.join(d, "o.html")
        x.save_html(f, libdir=pre, include_version=iv)
        names = sorted(os.path.relpath(os.path.join(p, n), d) for p, _, ns in os.walk(d) for n in ns)
        with open(f, newline="") as fo:
            return [fo.read(), names]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def has_tgf(x):
    if isinstance(x, Tag):
        return has_tgf(x.children)
    for y in x:
        if isinstance(y, Tag):
            if has_tgf(y):
                return True
        elif isinstance(y, HTMLDependency):
            if y.head is not None and has_tgf(y.head):
                return True
        elif hasattr(y, "tagify"):
            return True
    return False


def has_tgf_any(x):
    return has_tgf(x) if isinstance(x, (Tag, TagList)) else x.head is not None and has_tgf(x.head)


def tags_of(x):
    out = [x] if isinstance(x, Tag) else []
    kids = x.children if isinstance(x, Tag) else x if isinstance(x, TagList) else []
    for y in kids:
        if isinstance(y, Tag):
            out += tags_of(y)
    return out


def deps_of(x):
    out = [x] if isinstance(x, HTMLDependency) else []
    kids = x.children if isinstance(x, Tag) else x if isinstance(x, TagList) else \
        (x.head or []) if isinstance(x, HTMLDependency) else []
    for y in kids:
        out += deps_of(y)
    return out


class World:
    def __init__(self, r):
        self.r, self.h, self.roots, self.ev = r, Heap(), [], []
        self.no_append = set()

    def add(self, op, name="", **kw):
        self.ev.append({"op": op, "name": name, "ch": self.h.delta(), **kw})

    def new(self, x):
        self.roots.append(x)
        self.h.id(x)
        self.add("new")

    def read(self, x, name, args, fn):
        ok, v = guarded(fn)
        self.add("read", name, r=self.h.id(x), args=cps(args), ok=ok, s=digest(repr(v)) if ok else [], e="" if ok else v)

    def any_read(self, x):
        ops = reads_of(x, self.r)
        if ops:
            self.read(x, *self.r.choice(ops))

    def fail(self, x):
        """A read-only operation during which one of the foreign objects raises."""
        ops = reads_of(x, self.r)
        if isinstance(x, (Tag, TagList)):
            ops.append(("tagify", "", lambda: x.tagify()))
            ops.append(("tagify", "", lambda: x.tagify()))
        if not ops:
            return
        name, _, fn = self.r.choice(ops)
        B.failing = self.r.choice([0, 0, 1, 2])
        try:
            guarded(fn)
        finally:
            B.failing = None
        self.add("fail", name, r=self.h.id(x))

    def tagify(self, x):
        def go():
            t = x.tagify()
            return t
        ok, t = guarded(go)
        if ok and not isinstance(t, (Tag, TagList)):
            ok, t = False, "returned-" + type(t).__name__
        if not ok:
            self.add("tagify", r=self.h.id(x), ok=False, e=t)
            return None
        _, e1 = guarded(lambda: x == t)
        _, e2 = guarded(lambda: t == x)
        i = self.h.id(t)
        self.add("tagify", r=self.h.id(x), ok=True, e="", res=i, eq1=e1 is True, eq2=e2 is True)
        self.roots.append(t)
        return t

    def copy(self, x):
        ok, t = guarded(lambda: copy.copy(x))
        if ok and isinstance(x, H.HTMLDocument):
            a, kw = self.h.docs[id(x)]
            self.h.docs[id(t)] = (list(a), dict(kw))
            self.no_append |= {id(x), id(t)}
        i = self.h.id(t) if ok else 0
        self.add("copy", r=self.h.id(x), ok=ok, e="" if ok else t, res=i)
        if ok:
            self.roots.append(t)

    def document(self, xs, kw):
        k = {uncps(a["n"]): build_attr(a) for a in kw}
        d = H.HTMLDocument(*xs, **k)
        # what a list held when it was given; that it is later changed too is seen as well
        held = [y for x in xs if isinstance(x, TagList) for y in x]
        self.h.docs[id(d)] = (list(xs) + held, k)
        self.new(d)
        return d

    def cmp(self, x, y):
        i, j = self.h.id(x), self.h.id(y)
        if any(r is None for r in self.h.recs):
            self.add("new")
        ok, v = guarded(lambda: [x == y, y == x, x != y])
        self.add("cmp", l=i, r=j, ok=ok, e="" if ok else v,
                 eq1=ok and v[0] is True, eq2=ok and v[1] is True, ne=ok and v[2] is True)

    def foreign(self, x, y):
        i = self.h.id(x)
        if any(rec is None for rec in self.h.recs):
            self.add("new")
        ok, v = guarded(lambda: [x == y, x != y])
        self.add("foreign", type(y).__name__, l=i, ok=ok, e="" if ok else v,
                 eq=ok and v[0] is True, ne=ok and v[1] is True)

    def agree(self, x):
        ok, v = guarded(lambda: [str(x), repr(x), x._repr_html_(), x.render()["html"]])
        if ok and not all(isinstance(s, str) for s in v):
            ok, v = False, "non-str"
        self.add("agree", r=self.h.id(x), ok=ok, e="" if ok else v, ss=[digest(s) for s in v] if ok else [])

    def mutate(self, root, m=None, k=None):
        """One public mutation somewhere in root."""
        r = self.r
        tags, deps = tags_of(root), deps_of(root)
        # what a foreign object keeps for its next tagify() is not ours to change
        kept = {id(y) for o in list(self.h.objs) if getattr(o, "kept", None) is not None
                for y in tags_of(o.kept) + deps_of(o.kept)}
        if any(id(y) in kept for y in tags + deps):
            return
        if isinstance(root, H.HTMLDocument):
            if id(root) in self.no_append:
                return
            x = Tag("u", "new")
            ok, _ = guarded(lambda: root.append(x))
            self.h.docs[id(root)][0].append(x)
            self.add("mut", "doc-append", r=self.h.id(root))
            return
        fresh = lambda: r.choice(["mut", Tag("u", "m"), None, [1, "x"], HTML("<m>")])
        pick = []
        if tags:
            t = r.choice(tags) if k is None else tags[k % len(tags)]
            pick += [("name", t, lambda: setattr(t, "name", "zz")), ("ws", t, lambda: setattr(t, "add_ws", not t.add_ws)),
                     ("attr", t, lambda: t.attrs.update({"i": "x"})), ("attrset", t, lambda: t.attrs.__setitem__("data-q", "1")),
                     ("attrdel", t, lambda: t.attrs.clear()), ("class", t, lambda: t.add_class("kk")),
                     ("style", t, lambda: t.add_style("a:b;")), ("rmclass", t, lambda: t.remove_class("a")),
                     ("append", t, lambda: t.append(fresh())), ("insert", t, lambda: t.insert(0, "in")),
                     ("extend", t, lambda: t.extend(["e", Tag("u")])), ("clear", t, lambda: t.children.clear()),
                     ("iadd", t, lambda: t.children.__iadd__(["q"])), ("reverse", t, lambda: t.children.reverse()),
                     ("pop", t, lambda: t.children.pop() if t.children else None),
                     ("setkids", t, lambda: setattr(t, "children", TagList("s"))),
                     ("setattrs", t, lambda: setattr(t, "attrs", type(t.attrs)({"n": "w"})))]
        if isinstance(root, TagList):
            pick += [("lappend", root, lambda: root.append("la")), ("lset", root, lambda: root.__setitem__(slice(0, 1), ["lz"])),
                     ("lclear", root, lambda: root.clear())]
        if deps:
            d = r.choice(deps) if k is None else deps[k % len(deps)]
            pick += [("dep", d, lambda: d.meta.append({"name": "mm", "content": "c"})), ("depname", d, lambda: setattr(d, "name", "zz")),
                     ("depscript", d, lambda: d.script.append({"src": "a.js"})),
                     ("depitem", d, lambda: [i.__setitem__("data-z", "1") for i in d.script + d.stylesheet + d.meta]),
                     ("dephead", d, lambda: d.head.append("hh") if d.head is not None else None),
                     ("depheadtag", d, lambda: [x.attrs.update(q="1") for x in (d.head or []) if isinstance(x, Tag)]),
                     ("depsrc", d, lambda: d.source.__setitem__("subdir", source_dir() + "/.") if d.source and "subdir" in d.source else None)]
        if m:
            pick = [p for p in pick if p[0] == m]
        if not pick:
            return
        name, target, fn = r.choice(pick)
        ti = self.h.id(target)
        ok, _ = guarded(fn)
        # "mutation" is judged by the frame rule only
        self.add("mut", name, r=ti)

    def line(self, desc):
        return {"in": desc, "q": "heap", "ev": self.ev}


def build_attr(a):
    from ..build import attr_value
    return attr_value(a["v"])


def real(c, top, eqmeta=True):
    xs = build_seq(c)
    return xs[0] if top == "tag" else TagList(*xs)


def used_as_context(x, r):
    """A tag that has been a context manager is no different from one that hasn't."""
    import sys
    ts = tags_of(x)
    if ts:
        t = r.choice(ts)
        old = sys.displayhook
        sys.displayhook = lambda v: None
        try:
            with t:
                pass
        finally:
            sys.displayhook = old


def history(r, desc, g, n):
    w = World(r)
    c = g.tree()
    top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.7 else "list"
    desc.update(c=c, top=top)
    ok, x = guarded(lambda: real(c, top))
    if not ok:
        return None
    w.new(x)
    if r.random() < 0.1:
        used_as_context(x, r)
    if r.random() < 0.6:
        w.document([x] if r.random() < 0.5 else [x] + ([] if r.random() < 0.5 else ["tail"]), kwargs(r))
    for d in deps_of(x)[:1]:
        w.new(d)
    for _ in range(n):
        y = r.choice(w.roots)
        k = r.random()
        if k < 0.44:
            w.any_read(y)
        elif k < 0.5:
            w.fail(y)
        elif k < 0.72 and isinstance(y, (Tag, TagList)):
            w.tagify(y)
        elif k < 0.78:
            w.copy(y)
        elif k < 0.86 and isinstance(y, (Tag, TagList)):
            w.agree(y)
        else:
            w.mutate(y)
    # every read once more on everything
    for y in w.roots[:4]:
        for op in r.sample(reads_of(y, r), min(3, len(reads_of(y, r)))):
            w.read(y, *op)
    return w.line(desc)


def clone(x):
    """The same structure, built anew (leaves are the same objects)."""
    if isinstance(x, Tag):
        return type(x)(x.name, dict(x.attrs), *[clone(y) for y in x.children], _add_ws=x.add_ws)
    if isinstance(x, TagList):
        return TagList(*[clone(y) for y in x])
    if isinstance(x, HTMLDependency) and type(x) is HTMLDependency:
        return HTMLDependency(x.name, str(x.version), source=deepcopy(x.source), script=deepcopy(x.script),
                              stylesheet=deepcopy(x.stylesheet), meta=deepcopy(x.meta), all_files=x.all_files,
                              head=None if x.head is None else clone(x.head))
    return x


def alternate(r, desc, g):
    """Read, change, read again, and compare with the same structure built anew."""
    w = World(r)
    c = g.tree()
    top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.5 else "list"
    desc.update(c=c, top=top)
    ok, x = guarded(lambda: real(c, top))
    if not ok:
        return None
    w.new(x)
    doc = w.document([x], kwargs(r)) if r.random() < 0.3 else None
    t = w.tagify(x) if r.random() < 0.3 else None

    def some(y, state):
        r.setstate(state)          # the same operations, with the same arguments
        ops = reads_of(y, r)
        for j in r.sample(range(len(ops)), min(4, len(ops))):
            w.read(y, *ops[j])
    for _ in range(r.choice([1, 2, 3])):
        target = t if t is not None and r.random() < 0.4 else x
        state = r.getstate()
        some(target, state)
        if r.random() < 0.3:
            w.fail(r.choice([x, target, doc or x]))
        w.agree(target)
        if doc is not None:
            w.any_read(doc)
        w.mutate(target)
        some(target, state)
        w.agree(target)
        ok, y = guarded(lambda: clone(target))
        if ok:
            w.new(y)
            some(y, state)
            w.cmp(target, y)
            for a, b in list(zip(deps_of(target), deps_of(y)))[:2]:
                state = r.getstate()
                some(a, state)
                some(b, state)
                w.cmp(a, b)
                w.mutate(a, r.choice(["dep", "depscript", "depitem", "dephead", "depheadtag", "depname"]), 0)
                ok, b2 = guarded(lambda: clone(a))
                if ok:
                    w.new(b2)
                    some(a, state)
                    some(b2, state)
                    w.cmp(a, b2)
        if doc is not None:
            ok, z = guarded(lambda: clone(x)) if top == "tag" else (False, None)
            w.any_read(doc)
            if ok:
                dd = w.document([z], {})
                state = r.getstate()
                if not w.h.docs[id(doc)][1]:
                    some(doc, state)
                    some(dd, state)
    return w.line(desc)


# -------------------------------------------------------------- equality
def variants(c, r):
    """A copy of an abstract forest with one difference somewhere."""
    c = deepcopy(c)
    nodes = []

    def walk(xs):
        for i, x in enumerate(xs):
            nodes.append((xs, i))
            if x["k"] in ("tag", "list"):
                walk(x["c"])
            elif x["k"] == "dep" and "head" in x["d"] and not x["d"].get("hc"):
                x["d"].pop("headstr", None)
                walk(x["d"]["head"])
    walk(c)
    if not nodes:
        return [T("only")]
    xs, i = r.choice(nodes)
    many = [(ys, j) for ys, j in nodes if len(ys[j].get("a", ())) > 2]
    if many and r.random() < 0.4:
        xs, i = r.choice(many)
    x = xs[i]
    k = r.random()
    if k < 0.15:
        xs.insert(i, T("extra"))
    elif k < 0.3:
        del xs[i]
    elif k < 0.35:
        xs.append(xs.pop(i))
    elif x["k"] == "tag":
        z = r.choice(["name", "ws", "addattr", "delattr", "val", "attrname", "kid", "order", "text"] +
                     (["val"] * 5 if len(x["a"]) > 2 else []))
        if z == "name":
            x["n"] = x["n"] + cps("x") if r.random() < 0.5 else cps(uncps(x["n"]).upper())
        elif z == "ws":
            x["ws"] = not x["ws"]
        elif z == "addattr":
            x["a"].append({"n": cps("data-extra"), "v": cps(""), "h": False})
        elif z == "delattr" and x["a"]:
            del x["a"][-1]
        elif z == "val" and x["a"]:
            v = x["a"][r.randrange(len(x["a"]))]
            v["v"] = v["v"] + cps(" ") if r.random() < 0.6 or not v["v"] else v["v"][:-1] if r.random() < 0.5 else cps("other")
        elif z == "attrname" and x["a"]:
            x["a"][0]["n"] = x["a"][0]["n"] + cps("2")
        elif z == "order" and len(x["a"]) > 1:
            x["a"].reverse()
        elif z == "kid":
            x["c"].append(TAG("i", False))
        else:
            xs[i] = T(uncps(x["n"]))
    elif x["k"] in ("text", "html", "num", "repr"):
        if r.random() < 0.3:
            x["k"] = {"text": "html", "html": "text"}.get(x["k"], "text")
        else:
            xs[i] = {"k": "text", "s": x["s"] + cps(r.choice(["!", " "]))}
    elif x["k"] == "dep" and not x["d"].get("hc"):
        d = x["d"]
        z = r.choice(["name", "v", "script", "stylesheet", "meta", "head", "src", "all"])
        if z == "name":
            d["name"] = d["name"] + cps("2")
        elif z == "v":
            d["v"] = cps("99.9")
        elif z in ("script", "stylesheet"):
            key = "src" if z == "script" else "href"
            d[z] = d[z] + [[{"n": cps(key), "v": V("str", "zz.js")}]]
        elif z == "meta":
            d["meta"] = d["meta"] + [[{"n": cps("name"), "v": V("str", "n")}, {"n": cps("content"), "v": V("str", "c")}]]
        elif z == "head":
            d["head"] = d.get("head", []) + [T("hh")]
        elif z == "src":
            d["src"] = {"t": "href", "s": cps("https://other/")}
        else:
            d["all_files"] = not d.get("all_files", False)
    return c


def busy(r, c):
    """Some tags get more attributes than usual."""
    names = ["id", "class", "style", "href", "title", "data-a", "data-b", "role", "lang", "value"]
    for x in c:
        if x["k"] == "tag" and not x["a"]:
            if r.random() < 0.5:
                x["a"] = [{"n": cps(n), "v": cps(r.choice(["", "1", "x y", "a&b"])), "h": False}
                          for n in r.sample(names, r.randint(3, 8))]
        if x["k"] in ("tag", "list"):
            busy(r, x["c"])


def foreign(x, r):
    """Objects of other kinds holding the same data."""
    out = [None, 0, "", str(x) if not has_tgf_any(x) else "s", {}, [], (), object(), type(x)]
    if isinstance(x, TagList):
        out += [list(x), tuple(x), set(), len(x)] + [y for y in x if isinstance(y, (str, Tag))][:2]
    else:
        ns = SimpleNamespace(**vars(x))
        out += [ns, ns, dict(vars(x)), list(vars(x).values()), x.name]
        if isinstance(x, Tag):
            out += [x.children, x.attrs, TagList(x), list(x.children)]
        else:
            out += [x.version, type("Other", (), dict(vars(x)))()]
    return r.choice(out)


def comparisons(r, g, desc):
    w = World(r)
    c = g.content()
    if r.random() < 0.4:
        busy(r, c)
    top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.7 else "list"
    c2 = variants(c, r)
    c3 = variants(c2, r) if r.random() < 0.5 else c
    desc.update(c=c, top=top, c2=c2, c3=c3)

    def mk(cc):
        t = top if len(cc) == 1 and cc[0]["k"] == "tag" else "list"
        return guarded(lambda: real(cc, t))
    objs = [mk(c), mk(deepcopy(c)), mk(c2), mk(c3)]
    if not all(o[0] for o in objs):
        return None
    xs = [o[1] for o in objs]
    if r.random() < 0.2:
        used_as_context(xs[0], r)
    for x in xs:
        w.new(x)
    a, b, d, e = xs
    w.cmp(a, b)
    w.cmp(a, d)
    w.cmp(b, e)
    w.cmp(d, e)
    w.cmp(a, a)
    parts = tags_of(a) + deps_of(a) + [a]
    for _ in range(4):
        x = r.choice(parts)
        w.foreign(x, foreign(x, r))
    # parts, of different kinds
    for x, y in ((a, d), (a, b)):
        tx, ty, dx, dy = tags_of(x), tags_of(y), deps_of(x), deps_of(y)
        if tx and ty:
            w.cmp(r.choice(tx), r.choice(ty))
            w.cmp(tx[-1], ty[-1])
            w.cmp(r.choice(tx), r.choice(ty).children)
            w.cmp(r.choice(tx).children, r.choice(ty).children)
        if dx and dy:
            w.cmp(r.choice(dx), r.choice(dy))
            w.cmp(dx[0], dy[0])
            w.cmp(r.choice(dx), y)
    return w.line(desc)


def replay(case, r):
    """A history of MCHeap on real objects."""
    def conv(v):
        if v["k"] == "tag":
            return TAG(uncps(v["n"]), v["ws"], *[conv(x) for x in v["c"]])
        if v["k"] == "dep":
            return {"k": "dep", "d": {"name": v["n"], "v": v["v"], "m": 1, "src": {"t": "none", "s": []},
                                      "script": [], "stylesheet": [], "meta": []}}
        if v["k"] == "meta":
            return dict(META)
        return v
    w = World(r)
    v = case[0]["v"]
    c = [conv(v)] if v["k"] == "tag" else [conv(x) for x in v["c"]]
    x = real(c, "tag" if v["k"] == "tag" else "list")
    w.new(x)
    roots = [x]
    for o in case[1:]:
        y = roots[o["r"] - 1]
        if o["op"] == "tagify":
            t = w.tagify(y)
            if t is None:
                break
            roots.append(t)
        else:
            w.mutate(y, o["m"], o["k"] - 1)
        z = r.choice(roots)
        w.any_read(z)
    return w.line({"hist": case})


def check(ctx):
    r = ctx.rng
    cases = ctx.model("MCHeap", "MCHeap", consts={"MaxOps": ctx.pick(3, 4), "EmitOn": True},
                      invariants=["Disjoint", "Decided", "Emit"], props=["Independent", "CopyEqual"])
    lines = [replay(c, r) for c in r.sample(cases, min(len(cases), ctx.pick(600, 8000)))]
    for _ in range(ctx.pick(500, 8000)):
        desc = {}
        g = Gen(r, max_nodes=r.choice([3, 8, 12]), valid=r.random() < 0.8, nested=0.1, tgf=r.choice([0, 0, 0.2]))
        x = history(r, desc, g, r.randint(3, 9))
        if x:
            lines.append(x)
    for _ in range(ctx.pick(300, 5000)):
        g = Gen(r, max_nodes=r.choice([1, 2, 5, 9]), valid=r.random() < 0.8, nested=0.1, tgf=r.choice([0, 0, 0.2]))
        x = alternate(r, {}, g)
        if x:
            lines.append(x)
    for _ in range(ctx.pick(400, 6000)):
        g = Gen(r, max_nodes=r.choice([2, 5, 10]), valid=True, nested=0.1)
        x = comparisons(r, g, {})
        if x:
            lines.append(x)
    for cls, n in ((PageGen, ctx.pick(50, 900)), (BigGen, ctx.pick(20, 150))):
        for _ in range(n):
            for how in (lambda g: history(r, {}, g, r.randint(3, 7)), lambda g: alternate(r, {}, g),
                        lambda g: comparisons(r, g, {})):
                x = how(cls(r, valid=r.random() < 0.8, nested=0.1, tgf=r.choice([0, 0, 0.2])))
                if x:
                    lines.append(x)
    ctx.judge_traces("JudgeHeap", "HeapStart", "HeapStep", lines)
    ctx.assumptions += ["whether HTML('x') equals 'x', and the order of attributes, are left open by ==",
                        "metadata classes without == are compared by identity: equality after tagify is not demanded of them",
                        "copy.copy() is shallow: only its purity and structure are judged"]
