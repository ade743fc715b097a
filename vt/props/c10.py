"""C10: dependencies are validated, then resolve one per name to the highest version."""
from collections import UserDict
from copy import deepcopy
from random import Random

from packaging.version import Version

from .. import build
from ..build import H, HTMLDependency, Tag, TagList, build_seq
from ..core import cps, guarded
from ..gen import DEP, HT, META, TAG, T

VERS = ["1", "1.0", "1.0.0", "0", "0.0", "2", "10", "9", "1.9", "1.10", "1.09", "1.9.1", "1.10.0", "1.2.3.4",
        "1.0a1", "1.0b1", "1.0rc1", "1.0rc2", "1.0rc10", "1.0a10", "1.0a2", "1.0.dev1", "1.0.dev10",
        "1.0.dev2", "1.0.post1", "1.0.post2", "1.0.post10", "1.0a1.dev1", "1.0.post1.dev2", "1!0.1",
        "2!0", "1!1.0a1", "1.0+abc", "1.0+1", "1.0+2", "1.0+10", "1.0+abc.1", "1.0+abc.2", "1.0+abc.def",
        "20240101", "20231231", "3.5.1", "3.6.0", "3.11", "3.2", "100000000000000000000", "99999999999999999999",
        "00.1", "01", "001.002", "0010", "1.010", "0.0.1", "0.1", "0.9.99", "1.0.0.0.1", "4.99", "4.100"]


def details(x):
    """Other fields of a dependency; they have no part in the resolution."""
    r = Random(str(x))
    kw = {}
    if r.random() < 0.4:
        kw["all_files"] = r.random() < 0.7
    if r.random() < 0.5:
        kw["source"] = r.choice([{"href": "https://x.org/" + str(x)}, {"href": ""}, {"subdir": "/nowhere"}, {"package": "htmltools", "subdir": "s"}])
    if r.random() < 0.5:
        kw["script"] = [{"src": f"{i}.js", **({"defer": ""} if r.random() < 0.5 else {})} for i in range(r.randint(0, 5))]
    if r.random() < 0.5:
        kw["stylesheet"] = [{"href": f"{i}.css"} for i in range(r.randint(0, 5))]
    return kw


def dep(name, version, m, r=None):
    if r is not None and r.random() < 0.3:
        version = Version(version)
    return HTMLDependency(name, version, meta={"name": "m", "content": str(m)}, **details(m))


def ids(fn):
    def go():
        return [int(d.meta[0]["content"]) for d in fn()]
    ok, v = guarded(go)
    return {"ok": ok, "ids": v if ok else [], "e": "" if ok else v}


def abstract(ds):
    return [{"k": "dep", "d": {"name": d["name"], "v": d["v"], "m": d["m"]}} for d in ds]


class Shape:
    """Spread a sequence of dependency nodes over a random tree, keeping document order."""

    def __init__(self, r, tgf=0.0):
        self.r, self.tgf = r, tgf

    def place(self, ds, depth=0):
        r = self.r
        out, i = [], 0
        while i < len(ds):
            k = r.random()
            if k < 0.45 or depth > 5:
                out.append(ds[i])
                i += 1
            else:
                j = r.randint(i, len(ds)) if r.random() < 0.8 else i
                kids = self.place(ds[i:j], depth + 1)
                if r.random() < self.tgf:
                    out.append({"k": "tgf", "lst": True, "r": False, "c": kids})
                elif r.random() < 0.2:
                    out.append({"k": "list", "t": r.choice(["list", "tuple", "taglist"]), "c": kids})
                else:
                    out.append(TAG(r.choice(["div", "span", "head", "body", "br", "p", "script"]),
                                   r.random() < 0.5, *kids,
                                   via=r.choice(["ctor", "append", "insert", "nested", "extend"])))
                i = j
            if r.random() < 0.3:
                out.append(r.choice([T("x"), HT("<i>"), dict(META), {"k": "none"}]))
        if depth == 0 and r.random() < 0.3:
            out = [TAG("html" if r.random() < 0.3 else "div", True, *out)]
        return out


def heads(c, r, p):
    """Some dependencies carry the ones that follow them in their head."""
    out = []
    for n in c:
        n = dict(n)
        if "c" in n:
            n["c"] = heads(n["c"], r, p)
        if n["k"] == "dep" and out and out[-1]["k"] == "dep" and r.random() < p and not n["d"].get("head"):
            d = out[-1]["d"]
            out[-1] = {"k": "dep", "d": {**d, "head": d.get("head", []) + [n if r.random() < 0.7 else TAG("div", True, n)]}}
        else:
            out.append(n)
    return out


def concrete(c, r):
    """Abstract tree -> same tree with buildable dependency descriptions."""
    out = []
    for n in c:
        n = dict(n)
        if n["k"] == "dep":
            n["d"] = {"name": n["d"]["name"], "version": "".join(map(chr, n["d"]["v"])),
                      "meta": {"name": "m", "content": str(n["d"]["m"])},
                      **({"head": concrete(n["d"]["head"], r)} if "head" in n["d"] else {})}
        elif "c" in n:
            n["c"] = concrete(n["c"], r)
        out.append(n)
    return out


def observe(c, r):
    """The same marker twice stands for one object in two places (or for two equal ones)."""
    made, share, salt = {}, r.random() < 0.8, str(r.random())

    def make(d):
        m = d["meta"]["content"]
        if share and m in made:
            return made[m]
        made[m] = HTMLDependency(d["name"], d["version"], meta=d["meta"], **details(salt + m),
                                 **({"head": TagList(*build_seq(d["head"]))} if "head" in d else {}))
        return made[m]
    build._dep_override = make
    try:
        return observe1(c, r)
    finally:
        build._dep_override = None


def observe1(c, r):
    cc = concrete(c, r)
    ok, x = guarded(lambda: TagList(*build_seq(cc)))
    if ok and len(x) == 1 and isinstance(x[0], Tag) and r.random() < 0.7:
        x = x[0]
    line = {"in": {"c": c}, "q": "res", "c": c}
    line["full"] = ids(lambda: x.get_dependencies(dedup=False))
    line["ded"] = ids(lambda: x.get_dependencies())
    line["again"] = ids(lambda: TagList(*x.get_dependencies()).get_dependencies())
    line["rend"] = ids(lambda: x.render()["dependencies"])
    line["doc"] = ids(lambda: H.HTMLDocument(x).render()["dependencies"])
    line["exp"] = ids(lambda: x.tagify().get_dependencies(dedup=False))
    return line


# ---- definitions
def items(key, good):
    """(abstract, python value, list form) for one item field."""
    full = {k: "v" for k in good}
    out = [({"t": "none"}, None, None)]

    def d(keys, **extra):
        return {"t": "dict", "keys": keys}, {**{k: "v" for k in keys}, **extra}
    a, v = d(good)
    out.append((a, v, [v]))
    a2, v2 = d(good + ["id"])
    out.append((a2, v2, [v2]))
    out.append(({"t": "list", "items": [a, a2] * 6}, [v, v2] * 6, [v, v2] * 6))
    out.append(({"t": "list", "items": []}, [], []))
    out.append(({"t": "list", "items": [a, a2]}, [v, v2], [v, v2]))
    bad = [d([]), d(["id"]), ({"t": "other"}, "x.js"), ({"t": "other"}, ("src", "x")), ({"t": "other"}, 5),
           ({"t": "other"}, ""), ({"t": "other"}, [("src", "x")]), ({"t": "other"}, "src"), ({"t": "other"}, ["src"]),
           ({"t": "other"}, UserDict({k: "v" for k in good}))]
    real = ["type", "http-equiv", "charset", "property", "integrity", "rel", "media", "async", "id", "content", "name", "href", "src"]
    bad += [d([k for k in real if k not in good]), d([good[0].upper()]), d(["data-" + good[0]]), d([good[0] + "_"]),
            d([k for k in real if k != good[0]])]
    for k in good:
        bad.append(d([g for g in good if g != k] + ["other"]))
    for ab, bv in bad:
        if isinstance(bv, (tuple, list)):
            out.append(({"t": "list", "items": [ab]}, [bv], None))
            out.append(({"t": "list", "items": [a, ab]}, [v, bv], None))
            continue
        out.append((ab, bv, None))
        n = 9
        out.append(({"t": "list", "items": [a] * (n - 1) + [ab]}, [v] * (n - 1) + [bv], None))
        out.append(({"t": "list", "items": [ab]}, [bv], None))
        out.append(({"t": "list", "items": [a, ab]}, [v, bv], None))
        out.append(({"t": "list", "items": [ab, a]}, [bv, v], None))
    out.append(({"t": "list", "items": [{"t": "other"}]}, [None], None))
    return out


SOURCES = [({"t": "none"}, None), ({"t": "dict", "keys": ["href"]}, {"href": "http://x"}),
           ({"t": "dict", "keys": ["subdir"]}, {"subdir": "s"}),
           ({"t": "dict", "keys": ["package", "subdir"]}, {"package": None, "subdir": "s"}),
           ({"t": "dict", "keys": ["package", "subdir"]}, {"package": "htmltools", "subdir": "lib"}),
           ({"t": "dict", "keys": ["package"]}, {"package": "htmltools"}),
           ({"t": "dict", "keys": []}, {}), ({"t": "dict", "keys": ["dir"]}, {"dir": "x"}),
           ({"t": "other"}, "subdir"), ({"t": "other"}, "href"), ({"t": "other"}, ["subdir"]),
           ({"t": "other"}, ("href", "x")), ({"t": "other"}, 3), ({"t": "other"}, ""),
           ({"t": "other"}, UserDict(subdir="s")), ({"t": "other"}, UserDict(href="h")), ({"t": "other"}, {"subdir"}),
           ({"t": "other"}, [("subdir", "s")]), ({"t": "other"}, []), ({"t": "other"}, 0), ({"t": "other"}, False)]


def describe(d):
    return [d.name, str(d.version), d.source, d.script, d.stylesheet, d.meta, d.all_files,
            str(d.head), str(d.as_html_tags()), d.as_dict(), d.source_path_map(),
            str(d.serialize_to_script_json())]


def def_line(src, sc, st, me, r):
    abs_ = {"source": src[0], "script": sc[0], "stylesheet": st[0], "meta": me[0]}
    kw = dict(source=src[1], script=sc[1], stylesheet=st[1], meta=me[1])
    if r.random() < 0.5:
        kw = {k: v for k, v in kw.items() if v is not None}
    kw = deepcopy(kw)
    kw2 = deepcopy({"source": src[1], "script": sc[2], "stylesheet": st[2], "meta": me[2]})
    ok, v = guarded(lambda: HTMLDependency("n", "1.0", **kw))
    same = True
    if ok:
        def go():
            w = HTMLDependency("n", "1.0", **kw2)
            return v == w and w == v and describe(v) == describe(w)
        same = guarded(go) == (True, True)
    return {"in": {"d": abs_, "args": {k: repr(x) for k, x in kw.items()}}, "q": "def", "d": abs_,
            "res": {"ok": ok, "e": "" if ok else v}, "same": same}


def check(ctx):
    r = ctx.rng
    seqs = []
    for n, rich in ctx.pick([(4, False), (2, True)], [(5, False), (4, True)]):
        seqs += ctx.model("MCDeps", f"MCDeps deps<={n} rich={rich}",
                          consts={"MaxDeps": n, "Rich": rich, "EmitOn": True},
                          invariants=["OpIsDecl", "Idempotent", "OncePerName", "Assoc", "Order", "Numeric", "Emit"])
    if len(seqs) > ctx.pick(6000, 60000):
        seqs = r.sample(seqs, ctx.pick(6000, 60000))
    lines = []
    for s in seqs:
        lines.append(observe(Shape(r).place(abstract(s)), r))
    names = ["a", "b", "A", "jquery", "jquery-ui", "x y", "é", "headcontent_1", "a-1.0", "", "a ", " a", "  ", "Jquery", "JQUERY",
             "jquery_ui", "jquery.ui", "jqueryui", "a_b", "a.b", "a-b", "\u212b", "\u00c5", "ss", "\u00df", "0", "None", "a\n", "react", "react-dom"]
    for _ in range(ctx.pick(2500, 30000)):
        pool = r.sample(names, r.randint(1, 4))
        s = [{"name": r.choice(pool), "v": cps(r.choice(VERS)), "m": i + 1}
             for i in range(r.randint(1, 10))]
        if r.random() < 0.35:
            for _ in range(r.randint(1, 3)):
                s.insert(r.randint(0, len(s)), dict(r.choice(s)))
        c = Shape(r, r.choice([0, 0, 0.3])).place(abstract(s))
        unique = len({d["m"] for d in s}) == len(s)
        lines.append(observe(heads(c, r, 0.5) if unique and r.random() < 0.4 else c, r))
    # all pairs of versions
    for a in VERS:
        for b in VERS:
            for swap in (False, True):
                x, y = dep("n", a, 1, r), dep("n", b, 2, r)
                o = ids(lambda: Tag("div", x, Tag("p", y)).get_dependencies())
                lines.append({"in": {"v1": a, "v2": b}, "q": "ver", "v1": cps(a), "v2": cps(b),
                              "ok": o["ok"] and len(o["ids"]) == 1, "got": (o["ids"] + [0])[0]})
                if a == b:
                    break
                a, b = b, a
    sc, st, me = items("script", ["src"]), items("stylesheet", ["href"]), items("meta", ["name", "content"])
    ok_src = SOURCES[1]
    for s in SOURCES:
        for x in (sc[0], sc[1], sc[4]):
            lines.append(def_line(s, x, st[0], me[0], r))
    for x in sc:
        lines.append(def_line(ok_src, x, st[0], me[0], r))
    for x in st:
        lines.append(def_line(ok_src, sc[0], x, me[0], r))
    for x in me:
        lines.append(def_line(ok_src, sc[0], st[0], x, r))
    for _ in range(ctx.pick(1500, 15000)):
        lines.append(def_line(r.choice(SOURCES[:5] if r.random() < 0.8 else SOURCES),
                              *(r.choice(z[:5] if r.random() < 0.8 else z) for z in (sc, st, me)), r))
    ctx.judge("JudgeDeps", "DepsVerdict", lines)
    ctx.assumptions += ["versions are canonical PEP 440 strings or packaging Version objects",
                        "dependency objects are identified by a marker in their meta item"]
