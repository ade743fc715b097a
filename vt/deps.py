"""Abstract dependencies (spec/Doc.tla) and their real counterparts."""
from __future__ import annotations

import zlib
from copy import deepcopy

from .build import H, HTML, HTMLDependency, attr_value, build_seq
from .core import cps, uncps

VERS = ["1.0", "1.9", "1.10", "2", "0.1", "1.0.0", "1.0rc1", "3.5.1", "10.0.1"]


def V(t, s=""):
    return {"t": t, "s": cps(s)}


def item(**kw):
    return [{"n": cps(k), "v": v if isinstance(v, dict) else V("str", v)} for k, v in kw.items()]


def ditem(d):
    return [{"n": cps(k), "v": v if isinstance(v, dict) else V("str", v)} for k, v in d.items()]


def pyitem(it):
    return {uncps(a["n"]): attr_value(a["v"]) for a in it}


def near(r, d, m):
    """A dependency that differs from d in one detail."""
    d = deepcopy(d)
    d["m"] = m
    kinds = [k for k in ("script", "stylesheet", "meta") if d[k]]
    z = r.choice(["case", "case", "v", "all", "drop", "swap", "value", "head", "src", "key"])
    if z == "v":
        v = uncps(d["v"])
        d["v"] = cps(v + (r.choice([".0", ".1"]) if "rc" not in v else "0"))
    elif z == "all":
        d["all_files"] = not d.get("all_files", False)
    elif z in ("drop", "swap", "value", "key") and kinds:
        k = r.choice(kinds)
        if z == "drop":
            del d[k][-1]
        elif z == "swap":
            d[k].reverse()
        elif z == "key":
            it = r.choice(d[k])
            if cps("data-near") not in [a["n"] for a in it]:
                it.append({"n": cps("data-near"), "v": V("str", "1")})
        else:
            a = r.choice(r.choice(d[k]))
            if a["v"]["t"] == "str" and uncps(a["n"]) not in ("src", "href", "rel"):     # file names stay as they are
                a["v"] = V("str", r.choice([uncps(a["v"]["s"]).swapcase(), uncps(a["v"]["s"]) + "x", uncps(a["v"]["s"]) + " "]))
    elif z == "head" and not d.get("hc"):
        d.pop("headstr", None)
        d["head"] = d.get("head", []) + [{"k": "text", "s": cps("near")}]
    elif z == "src" and d["src"]["t"] == "href":
        d["src"] = dict(d["src"], s=cps(uncps(d["src"]["s"]) + "2"))
    elif not d.get("hc"):
        n = uncps(d["name"])
        d["name"] = cps(r.choice([n.swapcase(), n.upper(), n.lower(), n + "2"]))
    return d


ALL_NAMES = ("jq", "boot-strap", "d3.x", "A_b", "a", "a_b", "JQ", "jQ", "Boot-Strap", "d3", "d3.X", "jq-ui", "jq2", "A")


class DepGen:
    """Random dependencies with URL-safe names and paths; m identifies the object."""

    def __init__(self, r, names=None, nested=0.1, heads=True,
                 tgf=0.0, files=("a.js", "b/c.js", "x_y.min.js", "s.css", "css/t.css"), head_nodes=None, bare=0.0):
        self.r, self.names, self.nested, self.heads, self.tgf, self.files = r, names or r.sample(ALL_NAMES, 5), nested, heads, tgf, files
        self.m = 0
        self.made = []
        self.head_nodes, self.bare = head_nodes, bare

    def source(self):
        r = self.r
        k = r.random()
        if k < 0.25:
            return {"t": "none", "s": []}
        if k < 0.5:
            return {"t": "href", "s": cps(r.choice(["https://cdn.example/x", "https://h/", "/abs/p", "rel"]))}
        return {"t": "sub", "s": cps("some/dir"), "pkg": r.random() < 0.3, "nopkg": r.random() < 0.2}

    def script(self):
        r = self.r
        it = {"src": r.choice(self.files)}
        if r.random() < 0.4:
            it[r.choice(["async", "crossorigin", "type", "integrity", "data_x"])] = r.choice(
                ["", "module", "a&b\"<'>", V("true")])
        if r.random() < 0.2:
            it = {"defer": V("true"), **it}
        return ditem(it)

    def stylesheet(self):
        r = self.r
        it = {"href": r.choice(self.files)}
        if r.random() < 0.4:
            it[r.choice(["media", "title", "crossorigin"])] = r.choice(["print", "a 'q'", ""])
        if r.random() < 0.2:
            it["rel"] = "stylesheet"
        return ditem(it)

    def meta(self):
        r = self.r
        it = {"name": r.choice(["viewport", "x", "m2"]), "content": r.choice(["w=1", "", "<&>\"'", "é"])}
        if r.random() < 0.2:
            it["http-equiv"] = "y"
        if r.random() < 0.12:
            it[r.choice(["charset", "property", "media", "itemprop", "id"])] = r.choice(["utf-8", "og:x", ""])
        keys = list(it)
        if r.random() < 0.3:
            r.shuffle(keys)
        return ditem({k: it[k] for k in keys})

    def head(self, depth):
        r = self.r
        from .gen import HT, META, RP, TAG, T
        if not self.heads or r.random() < 0.45:
            return None
        pool = [TAG("title", True, T("t & <t>")), TAG("style", True, T("a>b{}")), HT("<base href='x'>"),
                RP("<r/>"), T("plain <x>"), TAG("script", True, T("if (a<b) {}")), TAG("link", True),
                dict(META), TAG("b", False, T("in")), TAG("noscript", True, TAG("p", True, T("x")), T("y"))]
        out = [r.choice(pool) for _ in range(r.choice([1, 1, 1, 2, 3]))]
        if depth < 2 and r.random() < self.nested:
            out.insert(r.randint(0, len(out)), {"k": "dep", "d": self.dep(depth + 1)})
        if depth < 2 and self.tgf and r.random() < self.tgf:
            c = [TAG("meta", True)]
            if depth < 2 and r.random() < 0.4:
                c = [TAG("meta", True), {"k": "dep", "d": self.dep(2)}]        # an expansion that carries a dependency
                c = c if r.random() < 0.6 else [TAG("noscript", True, *c)]
            out.append({"k": "tgf", "lst": len(c) > 1 or r.random() < 0.5, "r": False, "c": c})
        return out

    def dep(self, depth=0):
        r = self.r
        self.m += 1
        few = lambda f: [f() for _ in range(r.choice([0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 3, 4]))]
        if r.random() < self.bare:
            # only a name and a version
            nm, v = r.choice(self.names), r.choice(VERS)
            return {"name": cps(nm), "v": cps(v), "m": bare_id(nm, v), "src": self.source(), "script": [],
                    "stylesheet": [], "meta": []}
        d = {"name": cps(r.choice(self.names)), "v": cps(r.choice(VERS)), "m": self.m,
             "src": self.source(), "script": few(self.script), "stylesheet": few(self.stylesheet),
             "meta": [item(name="vt-m", content=str(self.m))] + few(self.meta)}
        h = self.head(depth)
        if h is not None:
            d["head"] = h
            if len(h) == 1 and h[0]["k"] == "html" and r.random() < 0.6:
                d["headstr"] = True       # given as a plain string
        if r.random() < 0.2:
            d["single"] = True
        return d

    def node(self):
        r = self.r
        if self.made and r.random() < 0.12:
            # like an earlier one, but for a detail
            self.m += 1
            d = near(r, r.choice(self.made), self.m)
            if d["meta"]:
                d["meta"][0] = item(name="vt-m", content=str(self.m))
                return {"k": "dep", "d": d}
        d = self.dep()
        if d["meta"] and not any(n["k"] == "dep" for n in d.get("head", [])):
            self.made.append(d)
        return {"k": "dep", "d": d}

    def headcontent(self, nodes):
        """head_content(): the name is taken from the real object (C18 decides names)."""
        real = H.head_content(*build_seq(nodes))
        m = 100000 + (int(real.name.split("_")[1][:6], 16) % 100000)
        return {"k": "dep", "d": {"name": cps(real.name), "v": cps("0.0"), "m": m, "src": {"t": "none", "s": []},
                                  "script": [], "stylesheet": [], "meta": [], "head": nodes, "hc": True}}


def pysource(d, root=None):
    s = d["src"]
    if s["t"] == "none":
        return None
    if s["t"] == "href":
        return {"href": uncps(s["s"])}
    out = {"subdir": uncps(s["s"])}
    if s.get("pkg"):
        out["package"] = "htmltools"
    elif s.get("nopkg"):
        out["package"] = None
    return out


def real_dep(d):
    if d.get("hc"):
        return H.head_content(*build_seq(d["head"]))
    kw = {}
    for k in ("script", "stylesheet", "meta"):
        v = [pyitem(i) for i in d[k]]
        if d.get("single") and len(v) == 1:
            v = v[0]
        if v:
            kw[k] = v
    src = pysource(d)
    if src is not None:
        kw["source"] = src
    if "head" in d:
        if d.get("headstr"):
            kw["head"] = uncps(d["head"][0]["s"])
        else:
            kw["head"] = build_seq(d["head"])
    if d.get("all_files"):
        kw["all_files"] = True
    return HTMLDependency(uncps(d["name"]), uncps(d["v"]), **kw)


def bare_id(name, version):
    return 200000 + zlib.crc32(f"{name}|{version}".encode()) % 1000000


def dep_id(dep):
    for m in dep.meta:
        if m.get("name") == "vt-m":
            return int(m["content"])
    if dep.name.startswith("headcontent_"):
        return 100000 + (int(dep.name.split("_")[1][:6], 16) % 100000)
    return bare_id(dep.name, dep.version)


def dep_ids(fn):
    from .core import guarded
    ok, v = guarded(lambda: [dep_id(d) for d in fn()])
    return {"ok": ok, "ids": v if ok else [], "e": "" if ok else v}
