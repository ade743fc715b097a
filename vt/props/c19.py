"""C19: every tag function creates its own element with the documented default."""
import ast
import os

from ..build import H, HTML, PlainMeta, StrSub, Tag, TagList, ReprObj
from ..catalog import HTML_FNS, INLINE, SVG_FNS, TOP
from ..core import REPO, cps, guarded, readable
from .attrs import obs_attrs

FNS = {"tags": HTML_FNS, "svg": SVG_FNS, "top": TOP}
MODS = {"tags": H.tags, "svg": H.svg, "top": H}
BADWS = [None, 0, 1, "", "True", "False", [], [True], 0.0, 1.0, {}, (), object(), HTML("x"), b"x", ...]
KW = ["id", "class_", "class", "style", "for_", "for", "type", "type_", "href", "src", "name", "value", "checked",
      "disabled", "hidden", "data_x", "aria_label", "role", "alt", "width", "height", "viewBox", "xmlns", "d", "x",
      "rel", "method", "lang", "title", "label", "placeholder", "onclick", "cls", "self_", "args", "kwargs", "attrs",
      "children", "tag", "func", "fn", "element", "add_ws", "_add_w", "ws", "desc", "is_", "a_b_c_", "_x", "text", "html"]
ODD = ["self", "_name", "args", "kwargs"]
VALS = ["", "v", "a b", "x;", "<&\">", "\n", True, False, None, 0, 1, 2.5, HTML("<b>&amp;"), "button", "hidden", "text/css",
        "stylesheet", "utf-8", "none"]


def classification():
    """The project's inline set, read from scripts/generate_tags.py."""
    try:
        tree = ast.parse(open(os.path.join(REPO, "scripts", "generate_tags.py")).read())
        for n in ast.walk(tree):
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                if any(isinstance(t, ast.Name) and t.id == "_INLINE_TAG_NAMES" for t in ts):
                    v = n.value
                    if isinstance(v, ast.Call) and len(v.args) == 1:
                        v = v.args[0]
                    s = set(ast.literal_eval(v))
                    if s and all(isinstance(x, str) for x in s):
                        return s, "scripts/generate_tags.py"
    except (OSError, SyntaxError, ValueError, TypeError):
        pass
    return set(INLINE), "spec/TagFns.tla"


def element(f):
    return "del" if f == "del_" else f


class Tgfy:
    def tagify(self):
        return Tag("b")


class Args:
    """One random argument list, buildable more than once (one-shot iterators)."""

    def __init__(self, r):
        self.r = r
        self.pos, self.kw = [], {}

    def value(self):
        r = self.r
        k = r.random()
        if k < 0.9:
            return r.choice(VALS)
        return StrSub("s") if k < 0.95 else "".join(r.choice("ab <>&'\"\n\t") for _ in range(r.randint(0, 9)))

    def attrdict(self):
        return {self.r.choice(KW + ["data-x", "_add_ws", "_name", "self", "x y"]): self.value()
                for _ in range(self.r.randint(0, 4))}

    def child(self, depth=0):
        r = self.r
        k = r.random()
        if k < 0.3:
            s = r.choice(["", "t", "<&>", "a b", "\n", "long " * 9])
            return lambda: s
        if k < 0.36:
            n = r.choice([0, 1, -2, 2.5, True, False])
            return lambda: n
        if k < 0.42:
            return lambda: None
        if k < 0.5:
            h = HTML(r.choice(["", "<i>", "&amp;"]))
            return lambda: h
        if k < 0.68:
            o = r.choice([lambda: Tag("b", "x"), PlainMeta, Tgfy, lambda: ReprObj("r"), lambda: H.head_content("h"),
                          lambda: Tag("br", _add_ws=False), lambda: H.HTMLDependency("n", "1")])()
            return lambda: o
        if k < 0.70 and depth == 0:
            o = r.choice([object(), b"b", {1}, 1j, range])
            return lambda: o
        if depth > 2:
            return lambda: "deep"
        c = [self.child(depth + 1) for _ in range(r.randint(0, 3))]
        t = r.choice(["list", "tuple", "taglist", "empty"])
        if t == "empty":
            return lambda: []
        return lambda: {"list": list, "tuple": tuple, "taglist": lambda x: TagList(*x)}[t](x() for x in c)

    def draw(self, kind):
        r = self.r
        if kind == "none":
            return self
        if kind in ("kids", "mix"):
            self.pos += [self.child() for _ in range(r.choice([1, 1, 2, 3, 6]))]
        if kind in ("dict", "mix"):
            for _ in range(r.choice([0, 1, 2])):
                d = self.attrdict()
                self.pos.insert(r.randint(0, len(self.pos)), lambda d=d: dict(d))
        if kind in ("kw", "mix"):
            self.kw = {k: v for k, v in ((r.choice(KW), self.value()) for _ in range(r.randint(0, 4)))}
            if r.random() < 0.04:
                self.kw[r.choice(ODD)] = "v"
        return self

    def make(self):
        return [f() for f in self.pos], dict(self.kw)


class Run:
    def __init__(self, r, inline):
        self.r, self.inline = r, inline
        self.tags, self.ids, self.keep, self.ev, self.desc = [], {}, [], [], []

    def kid(self, x):
        if isinstance(x, HTML):
            return {"k": "html", "s": cps(x.as_string())}
        if isinstance(x, str):
            return {"k": "text", "s": cps(x)}
        if id(x) not in self.ids:
            self.keep.append(x)
            self.ids[id(x)] = len(self.ids) + 1
        return {"k": "obj", "id": self.ids[id(x)]}

    def snap(self, t):
        ok, v = guarded(lambda: {"name": t.name if isinstance(t.name, str) else "?", "ws": t.add_ws is True,
                                 "attrs": obs_attrs(t.attrs), "kids": [self.kid(c) for c in t.children]})
        return v if ok else {"name": "?" + str(v), "ws": False, "attrs": [], "kids": []}

    def call(self, m, f, ws, kind, extra=False):
        r = self.r
        fn = getattr(MODS[m], f, None)
        inl = element(f) in self.inline
        a = Args(r).draw(kind)
        wsv = {"true": True, "false": False}.get(ws)
        wskw = {} if ws == "default" else {"_add_ws": r.choice(BADWS) if ws == "bad" else wsv}
        want = wsv if ws in ("true", "false") else not inl
        pos, kw = a.make()
        pos2, kw2 = a.make()
        e = {"op": "call", "m": m, "f": f, "ws": ws, "inl": inl, "extra": extra, "found": callable(fn)}
        ok, v = guarded(lambda: fn(*pos, **wskw, **kw))
        if ws == "bad":
            rok, ref = True, Tag("x")
        else:
            rok, ref = guarded(lambda: Tag(element(f), *pos2, _add_ws=want, **kw2))
        empty = {"name": "", "ws": False, "attrs": [], "kids": []}
        e["res"] = {"ok": ok, "e": "" if ok else str(v)}
        e["tag"] = ok and isinstance(v, Tag)
        e["ref"] = {"ok": rok, "e": "" if rok else str(ref), "t": self.snap(ref) if rok else empty}
        e["eq"] = True
        if ok and rok and ws != "bad":
            eok, eq = guarded(lambda: (v == ref) is True and (ref == v) is True and type(v) is type(ref)
                              and str(v) == str(ref))
            e["eq"] = eok and bool(eq)
        if ok and ws != "bad":
            self.tags.append(v)
        e["obs"] = [self.snap(t) for t in self.tags]
        self.ev.append(e)
        self.desc.append({"f": m + "." + f, "ws": repr(wskw), "args": repr([type(x).__name__ if not isinstance(
            x, (str, dict, list)) else x for x in pos])[:200], "kw": repr(kw)[:200]})

    def mutate(self, i, w):
        def go():
            t = self.tags[i - 1]
            if w == "kid":
                t.append("mutated")
            elif w == "attr":
                t.attrs["mutated"] = "1"
            else:
                t.add_ws = not t.add_ws
        if i <= len(self.tags):
            guarded(go)
        self.ev.append({"op": "mutate", "i": i, "w": w, "obs": [self.snap(t) for t in self.tags]})
        self.desc.append({"mutate": i, "w": w})

    def line(self):
        return {"in": {"calls": self.desc}, "q": "calls", "ev": self.ev}


def extras():
    """Public callables for known elements that the table does not list."""
    known = set(HTML_FNS) | set(SVG_FNS) | set(INLINE) | {"search", "hgroup", "set_"}
    out = []
    for m in ("tags", "svg"):
        for n, v in vars(MODS[m]).items():
            if n.startswith("_") or n in FNS[m] or isinstance(v, type) or not callable(v):
                continue
            if element(n) in known:
                out.append((m, n))
    return out


def check(ctx):
    r = ctx.rng
    inline, where = classification()
    ctx.notes["classification"] = {"from": where, "size": len(inline)}
    table = ctx.model("MCTagFns", "MCTagFns table", consts={"Mode": "table", "MaxOps": 1, "EmitOn": True},
                      invariants=["EachGood", "Tables", "Emit"], props=["Fresh"])
    hists = ctx.model("MCTagFns", "MCTagFns histories", consts={"Mode": "hist", "MaxOps": ctx.pick(3, 4), "EmitOn": True},
                      invariants=["EachGood", "Emit"], props=["Fresh"])
    if len(hists) > ctx.pick(1500, 20000):
        hists = r.sample(hists, ctx.pick(1500, 20000))
    lines = []
    order = list(table)
    for rep in range(ctx.pick(16, 160)):
        r.shuffle(order)
        kinds = ["none", "kids", "dict", "kw", "mix", "mix"]
        run = None
        for n, h in enumerate(order):
            if n % 4 == 0:
                run = Run(r, inline)
            c = h[0]
            run.call(c["m"], c["f"], c["ws"], "none" if rep == 0 else r.choice(kinds))
            if n % 4 == 3 or n == len(order) - 1:
                lines.append(run.line())
    for m, f in extras():
        for ws in ("default", "true", "false", "bad"):
            run = Run(r, inline)
            run.call(m, f, ws, "mix", True)
            lines.append(run.line())
    for h in hists:
        run = Run(r, inline)
        for c in h:
            if c["op"] == "call":
                run.call(c["m"], c["f"], c["ws"], r.choice(["none", "mix"]))
            else:
                run.mutate(c["i"], c["w"])
        lines.append(run.line())
    ctx.judge_traces("JudgeTagFns", "FStart", "FStep", lines)
    ctx.notes["functions"] = {m: len(f) for m, f in FNS.items()}
    ctx.assumptions += ["attributes and children are compared with what the Tag constructor makes of the same arguments"]
