"""C20: JSX components convert purely and surface all dependencies."""
import importlib
import os
import zlib
from copy import deepcopy

from ..build import H, HTMLDependency, MetadataNode, Tag, TagList, num_of
from ..catalog import ATTRS, ELEMENTS
from ..core import cps, guarded, uncps
from ..disturb import disturb
from ..heap import Heap
from ..jsparse import num_text, read
from ..page import TEXTS

PLAINTEXTS = [s for s in TEXTS if not set(s) & set("\\\n\r\u2028\u2029")]

J = importlib.import_module("htmltools._jsx")

EMPTY = {"t": "null"}
EXPRS = ["() => f(1)", "x.y[0]", "(a, b) => { return [a, \"b\", '}']; }", "`tpl ${a}, \"q\"`", "window.q1", "{a: 1, 'b': [2]}",
         "function () {\n  return 1;\n}", "e => e.target", "null_", "1 + 2"]
NAMES = ["Foo", "Bar", "Foo.Bar", "A.B.Cde", "X1", "É"]


class IdMeta(MetadataNode):
    def __init__(self, m):
        self.m = m


class Tgf:
    """Tagifiable; its expansion is made afresh, or kept."""

    def __init__(self, b, n):
        self.b, self.n = b, n
        self.kept = None
        self.k = zlib.crc32(repr(n).encode())

    def expand(self):
        kids = [self.b.node(x) for x in self.n["c"]]
        if self.n["lst"]:
            return TagList(*kids).tagify()
        k = kids[0]
        return k.tagify() if hasattr(k, "tagify") else k

    def tagify(self):
        self.k += 1
        if self.k % 3 == 0:
            disturb(self.k // 3)
        if self.n.get("cached"):
            if self.kept is None:
                self.kept = self.expand()
            return self.kept
        return self.expand()


class Builder:
    def __init__(self, r):
        self.r = r
        self.shared = {}

    def node(self, n):
        sh = n.get("sh")
        if sh is not None and sh in self.shared:
            return self.shared[sh]
        o = self.fresh(n)
        if sh is not None:
            self.shared[sh] = o
        return o

    def fresh(self, n):
        r, k = self.r, n["k"]
        if k == "text":
            return uncps(n["s"])
        if k == "num":
            return num_of(uncps(n["s"])) if n["s"] != cps("True") else True
        if k == "none":
            return None
        if k == "expr":
            s = uncps(n["s"])
            if "\n" in s and r.random() < 0.5:
                return J.jsx(*s.split("\n"))
            return J.jsx(s)
        if k == "meta":
            if not n["dep"]:
                return IdMeta(n["m"])
            kw = r.choice([{}, {"script": {"src": "a.js"}}, {"head": Tag("meta", name="h%d" % n["m"])},
                           {"source": {"href": "https://x/y"}, "stylesheet": [{"href": "s.css"}]}])
            return HTMLDependency("d%d" % n["nm"], "1.%d" % n["m"], meta=[{"name": "vt-m", "content": str(n["m"])}], **kw)
        if k == "tgf":
            return Tgf(self, n)
        if k == "list":
            c = [self.node(x) for x in n["c"]]
            t = r.random()
            return tuple(c) if t < 0.3 else TagList(*c) if t < 0.6 else c
        if k == "tag":
            a = {uncps(x["n"]): self.css(x["v"]) if x["v"]["k"] == "css" else uncps(x["v"]["s"]) for x in n["a"]}
            t = Tag(uncps(n["n"]), a, _add_ws=r.random() < 0.5)
            self.fill(t, [self.node(x) for x in n["c"]], n)
            return t
        return self.jsx(n)

    def jsx(self, n):
        r = self.r
        name = uncps(n["n"])
        kids = [self.node(x) for x in n["c"]]
        props = {uncps(x["n"]): self.value(x["v"]) for x in n["p"]}
        via = r.random()
        allowed = None
        if r.random() < 0.15:
            allowed = list(props) + ["extra"]
        make = (lambda *a, **k: J.JSXTag(name, *a, allowedProps=allowed, **k)) if r.random() < 0.5 else (
            J.jsx_tag_create(name, allowed) if allowed is not None or r.random() < 0.5 else J.jsx_tag_create(name))
        late = {}
        if r.random() < 0.2:
            ks = list(props)
            late = {k: props.pop(k) for k in ks if r.random() < 0.5}
        if via < 0.5:
            x = make(*kids, **props)
        else:
            x = make(**props)
            self.fill(x, kids, n)
        if late:
            if r.random() < 0.5:
                for k, v in late.items():
                    x.attrs[k] = v
            else:
                x.attrs.update(late)
        return x

    def fill(self, x, kids, n):
        r = self.r
        via = r.choice(["append", "appendn", "extend", "children", "childlist", "childassign", "chinsert", "nest"])
        if via == "append":
            for k in kids:
                x.append(k)
        elif via == "appendn":
            x.append(*kids) if kids else None
        elif via == "extend":
            x.extend(kids)
        elif via == "children":
            x.children.extend(kids)
        elif via == "childlist":
            for k in kids:
                x.children.append(k)
        elif via == "childassign":
            x.children = TagList(*kids)
        elif via == "chinsert":
            for k in reversed(kids):
                x.children.insert(0, k)
        else:
            x.append([kids[:1], [(kids[1:], None)]])

    def css(self, v):
        r = self.r
        s = ""
        for i, d in enumerate(v["d"]):
            s += (r.choice(["", " "]) if i else "") + uncps(d["n"]) + r.choice([":", ": "]) + uncps(d["v"]) + (
                ";" if i < len(v["d"]) - 1 or r.random() < 0.6 else "")
        return s

    def value(self, v):
        k, r = v["k"], self.r
        if k in ("null", "true", "false"):
            return {"null": None, "true": True, "false": False}[k]
        if k == "num":
            return v["py"] if "py" in v else num_of(uncps(v["s"]))
        if k == "str":
            return uncps(v["s"])
        if k == "arr":
            c = [self.value(x) for x in v["c"]]
            return tuple(c) if r.random() < 0.4 else c
        if k == "obj":
            return {(int(uncps(x["n"])) if x.get("int") else uncps(x["n"])): self.value(x["v"]) for x in v["e"]}
        if k == "css":
            return self.css(v)
        return self.node(v)


class JHeap(Heap):
    """Heap snapshots that also see components and their props."""

    def rec(self, x):
        if isinstance(x, J.JSXTag):
            return {"k": "jsx", "n": x.name, "d": sorted(x.__dict__), "at": self.id(x.attrs), "ch": self.id(x.children)}
        if isinstance(x, dict):
            return {"k": "map", "t": type(x).__name__, "e": [[repr(k), self.id(v)] for k, v in x.items()]}
        if isinstance(x, (TagList, list, tuple)):
            return {"k": type(x).__name__, "c": [self.id(y) for y in x]}
        if isinstance(x, HTMLDependency):
            r = super().rec(x)
            r["inner"] = [self.id(y) for y in (x.script, x.stylesheet, x.meta)]
            return r
        if isinstance(x, IdMeta):
            return {"k": "meta", "m": x.m}
        if isinstance(x, Tgf):
            if x.kept is not None:
                self.id(x.kept)
            return {"k": "tgf", "n": id(x.n)}
        if x is None or isinstance(x, (bool, int, float)):
            return {"k": "scalar", "r": repr(x)}
        return super().rec(x)


def meta_id(x):
    if isinstance(x, IdMeta):
        return x.m
    for m in getattr(x, "meta", ()):
        if m.get("name") == "vt-m":
            return int(m["content"])
    return -1


def walk(x):
    if isinstance(x, (TagList, list, tuple)):
        for y in x:
            yield from walk(y)
    elif isinstance(x, Tag):
        yield from walk(x.children)
    elif isinstance(x, MetadataNode):
        yield x


def files_ok(deps):
    n = 0
    for d in deps:
        src = d.source_path_map()["source"]
        if not d.script:
            return False
        for s in d.script:
            n += 1
            if not os.path.isfile(os.path.join(src, s["src"])):
                return False
    return n > 0


REACT = ("react", "react-dom")


class Run:
    def __init__(self, r, root):
        self.r, self.root = r, deepcopy(root)
        self.b = Builder(r)
        self.ev, self.errs = [], []
        self.exprs = set(EXPRS)
        collect(root, self.exprs)
        ok, self.x = guarded(lambda: self.b.node(root))
        self.ok = ok
        if ok:
            self.heap = JHeap()
            self.heap.id(self.x)
            self.heap.delta()

    def convert(self, how):
        r, x = self.r, self.x
        e = {"op": "convert", "how": how, "e": "", "script": True, "read": False, "ast": EMPTY, "meta": False, "metas": [],
             "hasdeps": False, "deps": [], "dedup": True, "react": True, "files": True}
        n = len(self.heap.objs)

        def go():
            if how == "str":
                s = str(x)
                e["script"] = s.lstrip().startswith("<script")
                e["txt"] = s
            elif how == "repr":
                s = r.choice([lambda: repr(x), lambda: x._repr_html_()])()
                e["txt"] = s
            elif how == "tagify":
                t = x.tagify()
                e["script"] = isinstance(t, Tag) and t.name == "script"
                e["txt"] = "".join(str(c) for c in t.children if not isinstance(c, MetadataNode))
                found = list(walk(t))
                e["meta"], e["metas"] = True, [meta_id(m) for m in found
                                               if not (isinstance(m, HTMLDependency) and m.name in REACT)]
                e["dedup"] = r.random() < 0.5
                self.deps(e, t.get_dependencies() if e["dedup"] else t.get_dependencies(dedup=False))
            else:
                res = {"doc": lambda: H.HTMLDocument(Tag("div", x)).render(), "tag": lambda: Tag("div", x).render(),
                       "list": lambda: TagList(x).render()}[how]()
                e["txt"] = res["html"]
                self.deps(e, res["dependencies"])
        ok, v = guarded(go)
        e["ok"], e["e"] = ok, "" if ok else str(v)
        if ok:
            a = read(e.pop("txt"), self.exprs)
            e["read"] = a is not None
            e["ast"] = a if a is not None else EMPTY
        e.pop("txt", None)
        ch = [c["i"] for c in self.heap.delta() if c["i"] <= n]
        e["changed"] = ch
        self.ev.append(e)

    def deps(self, e, deps):
        e["hasdeps"] = True
        e["deps"] = [meta_id(d) for d in deps if d.name not in REACT]
        rd = [d for d in deps if d.name in REACT]
        e["react"] = sorted({d.name for d in rd}) == sorted(REACT)
        ok, v = guarded(lambda: files_ok(rd))
        e["files"] = ok and v

    def prop(self, n, v):
        val = self.b.value(v)
        nm = uncps(n)
        guarded(lambda: self.x.attrs.__setitem__(nm, val) if self.r.random() < 0.5 else self.x.attrs.update({nm: val}))
        self.ev.append({"op": "prop", "n": n, "v": v, "changed": []})
        self.heap.delta()

    def kids(self, c):
        objs = [self.b.node(y) for y in c]
        guarded(lambda: self.x.append(*objs) if self.r.random() < 0.5 and objs else self.x.extend(objs))
        self.ev.append({"op": "kids", "c": c, "changed": []})
        self.heap.delta()

    def line(self):
        return {"in": {"root": self.root}, "q": "component", "root": self.root, "ev": self.ev}


def collect(n, out):
    if isinstance(n, dict):
        if n.get("k") == "expr":
            out.add(uncps(n["s"]))
        for v in n.values():
            collect(v, out)
    elif isinstance(n, list):
        for v in n:
            collect(v, out)


def one(r, root, hist=None):
    run = Run(r, root)
    if not run.ok:
        # construction itself failed: judged as a failed conversion
        e = {"op": "convert", "how": "build", "ok": False, "e": "build-" + str(run.x), "script": True, "read": False, "ast": EMPTY,
             "meta": False, "metas": [], "hasdeps": False, "deps": [], "dedup": True, "react": True, "files": True, "changed": []}
        return {"in": {"root": root}, "q": "component", "root": root, "ev": [e]}
    for h in hist or [r.choice(["tagify", "str"]), "tagify"] + r.choices(
            ["tagify", "str", "repr", "doc", "tag", "list"], k=r.choice([0, 1, 1, 2])):
        if isinstance(h, str):
            run.convert(h)
        elif h[0] == "prop":
            run.prop(h[1], h[2])
        else:
            run.kids(h[1])
    return run.line()


# ---------------------------------------------------------------- random components
class Gen:
    ALPH = "ab <>&'\"/{}[](),:;$#%=\t*é日😀`"

    def __init__(self, r, size=14, share=0.0):
        self.r, self.left, self.m, self.share = r, size, 0, share
        self.pool = []
        self.nsh = 0

    def s(self):
        r = self.r
        k = r.random()
        if k < 0.35:
            return r.choice(["", "t", "childtext", "a b", "\"", "'", "null", "true", "1", "</b>", "React.createElement('x')", "//", "${x}",
                             "\t", "\u00a0", "{", "}", ",", ")"])
        if k < 0.55:
            return r.choice(PLAINTEXTS)
        return "".join(r.choice(self.ALPH) for _ in range(r.randint(0, 8)))

    def txt(self):
        return {"k": "text", "s": cps(self.s())}

    def num(self, for_prop):
        r = self.r
        if not for_prop:
            return {"k": "num", "s": cps(str(r.choice([0, 1, -2, 2.5, 10 ** 20, 1e22, True])))}
        v = r.choice([0, 1, -2, 2.5, -0.5, 10 ** 20, 1e22, 1e-7, float("inf"), float("-inf"), 0.1, 3.0,
                      1 / 3, 123456789.123456789, 2 ** 53 + 1, 1e-5, 0.00001234567890123, 1e16, 1e15 + 0.5, -1e300, 5e-324,
                      r.random(), r.uniform(-1e9, 1e9), r.randint(-10 ** 18, 10 ** 18), 12345678.9, 1000000, 1.5e6])
        return {"k": "num", "s": cps(num_text(v)), "py": v}

    def expr(self, child=False):
        e = self.r.choice(EXPRS)
        while child and ("\n" in e or "\\" in e):
            e = self.r.choice(EXPRS)
        return {"k": "expr", "s": cps(e)}

    def meta(self, dep=None):
        self.m += 1
        nm = self.r.randint(1, self.m) if self.r.random() < 0.3 else self.m
        return self.shareable({"k": "meta", "m": self.m, "nm": nm, "dep": self.r.random() < 0.7 if dep is None else dep})

    def css(self):
        r = self.r
        names = r.sample(["color", "background-color", "z-index", "--x", "fontSize", "margin"], r.choice([0, 1, 1, 2, 3]))
        return {"k": "css", "d": [{"n": cps(n), "v": cps(r.choice(["red", "1px solid", "0", "url(http://x/y)", "\"q\"", "a:b"]))}
                                  for n in names]}

    def shareable(self, n):
        if self.r.random() < self.share:
            self.nsh += 1
            n["sh"] = self.nsh
            self.pool.append(n)
        return n

    def kids(self, depth, expand=False, plain=False):
        out = []
        for _ in range(self.r.choice([0, 1, 1, 2, 3, 5] if self.left < 40 else [3, 8, 14])):
            if self.left <= 0:
                break
            out.append(self.kid(depth + 1, expand, plain))
        return out

    def kid(self, depth, expand=False, plain=False):
        """expand: inside an expansion (no components, no jsx()); plain: no metadata or tagifiables."""
        r = self.r
        self.left -= 1
        k = r.random()
        if self.pool and not expand and not plain and k < 0.08:
            return deepcopy(r.choice(self.pool))
        if k < 0.25:
            return self.txt()
        if k < 0.3:
            return self.num(False)
        if k < 0.33:
            return {"k": "none"}
        if k < 0.45:
            return self.txt() if plain else self.meta()
        if k < 0.52:
            return self.txt() if expand else self.expr(True)
        if depth > 7:
            return self.txt()
        if k < 0.6 and not expand:
            return {"k": "list", "c": self.kids(depth, expand, plain)}
        if k < 0.72 and not plain:
            return self.tgf(depth)
        if k < 0.86 or expand:
            return self.tag(depth, expand, plain)
        return self.jsx(depth, plain)

    def tgf(self, depth, single=None):
        r = self.r
        lst = r.random() < 0.5 if single is None else not single
        if lst:
            c = self.kids(depth, True)
        else:
            c = [r.choice([lambda: self.tag(depth + 1, True), lambda: self.tag(depth + 1, True), self.txt, self.meta])()
                 if single is None else self.tag(depth + 1, True)]
        return self.shareable({"k": "tgf", "lst": lst, "c": c, "cached": r.random() < 0.4})

    def tag(self, depth, expand=False, plain=False):
        r = self.r
        a = []
        for n in r.sample(["id", "class", "data-x", "aria-label", "title", "font-style", "xstyle", "for", "key"], r.choice([0, 0, 1, 2, 3])):
            a.append({"n": cps(n), "v": {"k": "str", "s": cps(self.s())}})
        if r.random() < 0.12:
            seen = {str(x["n"]) for x in a} | {str(cps("style"))}
            a += [{"n": cps(n), "v": {"k": "str", "s": cps(self.s())}} for n in r.sample(ATTRS, r.choice([1, 4, 12]))
                  if str(cps(n)) not in seen]
        if r.random() < 0.15:
            a.append({"n": cps("style"), "v": self.css()})
        n = {"k": "tag", "n": cps(r.choice(["div", "span", "p", "br", "script", "custom-el", "svg"] if r.random() < 0.7 else ELEMENTS)), "a": a,
             "c": self.kids(depth, expand, plain)}
        return n if expand or plain else self.shareable(n)

    def jsx(self, depth, plain=False):
        r = self.r
        names = r.sample(["id", "class_", "foo_bar", "data_x_", "onClick", "a", "B", "None_", "x__y", "value", "items",
                          "font_style", "itemStyle", "xstyle", "style2", "t__", "u___", "_lead", "__w", "for_", "key", "ref",
                          "children", "é", "A_B_c"],
                         r.choice([0, 0, 1, 2, 3]))
        p = [{"n": cps(n), "v": self.value(depth + 1, plain)} for n in names]
        if r.random() < 0.12:
            p.insert(r.randint(0, len(p)), {"n": cps("style"), "v": self.css() if r.random() < 0.6 else self.obj(depth + 1)})
        n = {"k": "jsx", "n": cps(r.choice(NAMES)), "p": p, "c": self.kids(depth, False, plain)}
        return n if plain else self.shareable(n)

    def obj(self, depth):
        r = self.r
        ks = r.sample(["a", "b c", "\"q\"", "é", "data-x", "z_y_", "1"], r.choice([0, 1, 2, 3]))
        return {"k": "obj", "e": [{"n": cps(k), "v": self.value(depth + 1, True, True),
                                   **({"int": True} if k == "1" else {})} for k in ks]}

    def value(self, depth, plain=False, inner=False):
        r = self.r
        k = r.random()
        if k < 0.15:
            return {"k": r.choice(["null", "true", "false"])}
        if k < 0.25:
            return self.num(True)
        if k < 0.45 or depth > 6:
            return {"k": "str", "s": cps(self.s())}
        if k < 0.55:
            return self.expr()
        if k < 0.66:
            return {"k": "arr", "c": [self.value(depth + 1, True, True) for _ in range(r.choice([0, 1, 2, 3]))]}
        if k < 0.76:
            return self.obj(depth)
        if self.left <= 0:
            return {"k": "str", "s": cps(self.s())}
        self.left -= 1
        if k < 0.86 or plain and k < 0.9:
            return self.tag(depth, plain=plain)
        if k < 0.96 or plain:
            return self.jsx(depth, plain)
        return self.tgf(depth, True)

    def root(self):
        n = self.jsx(0)
        n.pop("sh", None)
        self.pool = [x for x in self.pool if x is not n]
        return n


def allow_lines(r, n):
    pool = ["a", "b", "data-x", "id", "onClick", "value", "className", "aria-label", "A", "", "ab"]
    lines = []
    for _ in range(n):
        allowed = r.sample(pool, r.randint(0, 6))
        names = r.sample(pool, r.randint(0, 3))
        if r.random() < 0.4:
            names = [x for x in names if x in allowed]
        kind = r.choice(["direct", "create", "tuple"])

        def go():
            kw = {k: r.choice([1, None, "v", True]) for k in names}
            kids = ["t", Tag("b")] if r.random() < 0.5 else []
            al = list(allowed)
            if kind == "direct":
                return J.JSXTag("Foo", *kids, allowedProps=al, **kw)
            return J.jsx_tag_create("Foo.Bar", al)(*kids, **kw)
        ok, _v = guarded(go)
        lines.append({"in": {"allowed": allowed, "props": names}, "q": "allow", "root": EMPTY,
                      "ev": [{"op": "allow", "allowed": [cps(x) for x in allowed], "names": [cps(x) for x in names], "ok": ok,
                              "changed": []}]})
    return lines


def check(ctx):
    r = ctx.rng
    ctx.model("MCJsx", "MCJsx quote", consts={"Mode": "quote", "MaxNodes": ctx.pick(4, 6),
                                              "Chars": {34, 39, 97, 117, 128512}, "EmitOn": False}, invariants=["RoundTrip"])
    cases = ctx.model("MCJsx", "MCJsx tree", consts={"Mode": "tree", "MaxNodes": ctx.pick(4, 5), "Chars": {97}, "EmitOn": True},
                      invariants=["EachOnce", "Reads", "AllMetas", "Invisible", "Spliced", "Different", "Emit"], timeout=880)
    if len(cases) > ctx.pick(3500, 60000):
        cases = r.sample(cases, ctx.pick(3500, 60000))
    lines = [one(r, c) for c in cases]
    for _ in range(ctx.pick(3000, 50000)):
        g = Gen(r, r.choice([3, 8, 14, 14, 30] if r.random() < 0.985 else [90]), r.choice([0, 0, 0.3]))
        root = g.root()
        hist = None
        if r.random() < 0.3:
            hist = [r.choice(["tagify", "str"])]
            for _ in range(r.randint(1, 3)):
                g.left = 4
                if r.random() < 0.5:
                    hist.append(("prop", cps(r.choice(["id", "class_", "foo_bar", "new_one", "style_x"])), g.value(1)))
                else:
                    hist.append(("kids", [g.kid(1) for _ in range(r.choice([1, 2]))]))
                hist.append(r.choice(["tagify", "tagify", "str", "doc"]))
        lines.append(one(r, root, hist))
    lines += allow_lines(r, ctx.pick(500, 5000))
    ctx.judge_traces("JudgeJsx", "XStart", "XStep", lines, chunk=10000)
    ctx.assumptions += ["strings without backslashes and line breaks; a jsx() child may be quoted or raw",
                        "no metadata or tagifiables inside list/dict props; no HTML()/_repr_html_ children",
                        "style values compared modulo surrounding whitespace; the reader of the JavaScript subset"]
