"""Build real htmltools objects from abstract nodes (spec/Tree.tla)."""
from __future__ import annotations

import zlib

from .core import import_library, uncps

H = import_library()
from htmltools import (HTML, HTMLDependency, MetadataNode, Tag, TagList)  # noqa: E402
from .disturb import disturb  # noqa: E402


class Fails(Exception):
    pass


failing = None      # after so many more calls, the foreign objects of a tree raise


def called():
    global failing
    if failing is not None:
        failing -= 1
        if failing < 0:
            raise Fails


class ReprObj:
    """Self-rendering object (not tagifiable, not a str)."""

    def __init__(self, s):
        self.s = s
        self.k = zlib.crc32(s.encode("utf-8", "surrogatepass"))

    def _repr_html_(self):
        called()
        # some of them use the library themselves
        if self.k % 3 == 0:
            disturb(self.k // 3)
        return self.s


class PlainMeta(MetadataNode):
    pass


class RichMeta(MetadataNode):
    """A metadata node that could be shown, and must not be."""

    def _repr_html_(self):
        return "<meta-leak>"

    def __str__(self):
        return "<meta-leak>"


class EqMeta(MetadataNode):
    def __eq__(self, other):
        return isinstance(other, EqMeta)

    __hash__ = None


METAS = [PlainMeta, MetadataNode, RichMeta, EqMeta]
_metas = 0


def plain_meta():
    """Metadata nodes of several classes, in turn."""
    global _metas
    _metas += 1
    return METAS[_metas % len(METAS)]()


class Fragment(TagList):
    """A TagList of a class of its own."""


class Tgf:
    """Tagifiable whose expansion is built afresh on every call."""

    def __init__(self, node):
        self.node = node
        self.k = zlib.crc32(repr(node).encode())
        self.calls = 0
        self.kept = None

    def tagify(self):
        called()
        self.calls += 1
        if (self.k + self.calls) % 3 == 0:
            disturb(self.k // 3 + self.calls)
        if self.node.get("cached"):
            # keeps its expansion and returns the same object every time
            if self.kept is None:
                self.kept = self.expand()
            return self.kept
        return self.expand()

    def expand(self):
        kids = build_seq(self.node["c"])
        if self.node["lst"]:
            t = TagList(*kids).tagify()
            return Fragment(*t) if self.node.get("subl") else t
        k = kids[0]
        if isinstance(k, MetadataNode):
            return TagList(k).tagify()[0]      # its head may need expansion too
        return k.tagify() if hasattr(k, "tagify") else k


class TgfRepr(Tgf):
    def _repr_html_(self):
        return uncps(self.node["s"])


class TgfEmpty(Tgf):
    """Looks empty, and has the same length as nothing."""

    def __len__(self):
        return 0


class TgfIter(Tgf):
    def __iter__(self):
        return iter(["iterated"])

    def __len__(self):
        return 1

    def __getitem__(self, i):
        return ["iterated"][i]


class TgfStr(Tgf):
    """Has every other spelling of itself."""

    def __str__(self):
        return "<str>"

    __repr__ = __str__

    def __html__(self):
        return "<html>"

    def __eq__(self, other):
        return True

    __hash__ = None


class TgfCall(Tgf):
    def __call__(self, *a, **k):
        return "called"


TGFS = {"empty": TgfEmpty, "iter": TgfIter, "str": TgfStr, "call": TgfCall}


class StrSub(str):
    pass


_dep_override = None      # set by drivers that made the real dependencies themselves


def build_dep(d):
    if _dep_override is not None:
        return _dep_override(d)
    if "src" in d:
        from .deps import real_dep
        return real_dep(d)
    kw = {}
    for k in ("source", "script", "stylesheet", "meta", "all_files"):
        if k in d:
            kw[k] = d[k]
    if "head" in d:
        kw["head"] = build_seq(d["head"])
    return HTMLDependency(d["name"], d["version"], **kw)


NUMS = {}


def num_of(s):
    """A number whose str() is s."""
    for f in (int, float):
        try:
            v = f(s)
            if str(v) == s:
                return v
        except ValueError:
            pass
    raise ValueError(s)


class StrObj:
    """An object that only has a str()."""

    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class HtmlSub(HTML):
    pass


def build_expr(e):
    """Evaluate a concatenation expression with the library's own operators."""
    if e["t"] == "cat":
        a, b = build_expr(e["l"]), build_expr(e["r"])
        if e.get("aug"):
            a += b
            return a
        return a + b
    s = uncps(e["s"])
    if e["t"] == "html":
        return HtmlSub(s) if e.get("sub") else HTML(s)
    if e["t"] == "obj":
        return num_of(s) if e.get("num") else StrObj(s)
    return StrSub(s) if e.get("sub") else s


def attr_value(v):
    t = v["t"]
    if t == "none":
        return None
    if t == "true":
        return True
    if t == "false":
        return False
    s = uncps(v["s"])
    return HTML(s) if t == "html" else num_of(s) if t == "num" else StrSub(s) if v.get("sub") else s


def pairs(arg):
    return {uncps(a["n"]): attr_value(a["v"]) for a in arg}


def apply_attr(tag, o):
    """One attribute operation of spec/Attrs.tla on a real tag."""
    op = o["op"]
    if op == "update":
        args = [pairs(a) for a in o["args"]]
        if o.get("kw"):
            return tag.attrs.update(*args[:-1], **args[-1])
        return tag.attrs.update(*args)
    if op == "set":
        tag.attrs[uncps(o["n"])] = attr_value(o["v"])
        return None
    if op == "add_class":
        if o["prepend"]:
            return tag.add_class(attr_value(o["v"]), prepend=True)
        return tag.add_class(attr_value(o["v"]))
    if op == "add_style":
        return tag.add_style(attr_value(o["v"]), prepend=o["prepend"])
    raise ValueError(op)


def ctor_tag(name, op, kids=(), ws=True):
    """Tag built with the constructor op's positional dicts and keywords."""
    from htmltools._core import TagAttrDict
    args = [pairs(a) for a in op["args"]]
    kw = args.pop() if op.get("kw") else {}
    if op.get("as_attrdict"):
        args = [TagAttrDict(a) if i == 0 else a for i, a in enumerate(args)]
    pos = []
    kids = list(kids)
    # interleave children and attribute dicts
    for i, a in enumerate(args):
        pos.append(a)
        if kids and i == 0:
            pos.append(kids.pop(0))
    return Tag(name, *pos, *kids, _add_ws=ws, **kw)


_shared = {}


def fresh():
    """Begin a new object graph (nodes with the same "sh" are one object)."""
    _shared.clear()


def build(n):
    if "sh" in n:
        if n["sh"] not in _shared:
            _shared[n["sh"]] = build({k: v for k, v in n.items() if k != "sh"})
        return _shared[n["sh"]]
    k = n["k"]
    if k == "expr":
        return build_expr(n["e"])
    if k == "text":
        s = uncps(n["s"])
        return StrSub(s) if n.get("sub") else s
    if k == "num":
        s = uncps(n["s"])
        if n.get("bool"):
            return s == "True"
        return num_of(s)
    if k == "html":
        return (HtmlSub if n.get("sub") else HTML)(uncps(n["s"]))
    if k == "repr":
        return ReprObj(uncps(n["s"]))
    if k == "meta":
        return plain_meta()
    if k == "none":
        return None
    if k == "dep":
        return build_dep(n["d"])
    if k == "tgf":
        return TgfRepr(n) if n.get("r") else TGFS.get(n.get("var"), Tgf)(n)
    if k == "list":
        kids = build_seq(n["c"])
        t = n.get("t", "list")
        return TagList(*kids) if t == "taglist" else tuple(kids) if t == "tuple" else kids
    if k == "tag":
        return build_tag(n)
    raise ValueError(k)


def build_seq(c):
    return [build(x) for x in c]


def attr_val(a):
    v = uncps(a["v"])
    return HTML(v) if a["h"] else v


def build_tag(n, cls=None):
    kids = build_seq(n["c"])
    name = uncps(n["n"])
    ws = n["ws"]
    if "sup" in n:
        t = ctor_tag(name, n["sup"][0], kids, ws)
        for o in n["sup"][1:]:
            apply_attr(t, o)
        return t
    attrs = {uncps(a["n"]): attr_val(a) for a in n["a"]}
    via = n.get("via", "ctor")
    if via == "ctor":
        return Tag(name, attrs, *kids, _add_ws=ws)
    if via == "nested":
        return Tag(name, [kids[:1], (kids[1:2], None)], attrs, TagList(*kids[2:]), _add_ws=ws)
    t = Tag(name, attrs, _add_ws=ws)
    if via == "append":
        for x in kids:
            t.append(x)
    elif via == "appendn":
        t.append(*kids) if kids else None
    elif via == "extend":
        t.extend(kids)
    elif via == "insert":
        for x in reversed(kids):
            t.insert(0, x)
    elif via == "children":
        t.children = TagList(*kids)
    elif via == "childext":
        t.children.extend(kids)
    elif via == "radd":
        t.children = kids + t.children
    elif via == "add":
        t.children = t.children + kids
    elif via == "setws":
        t = Tag(name, attrs, *kids, _add_ws=not ws)
        t.add_ws = ws
    else:
        raise ValueError(via)
    return t


VIAS = ["ctor", "nested", "append", "appendn", "extend", "insert", "children",
        "childext", "radd", "add", "setws"]
