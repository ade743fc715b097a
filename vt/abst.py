"""Abstract real object graphs into spec/Tree.tla nodes."""
from __future__ import annotations

from .build import HTML, HTMLDependency, MetadataNode, ReprObj, Tag, TagList, Tgf, TgfRepr
from .core import cps


def node(x):
    from .deps import dep_id
    if isinstance(x, Tag):
        return {"k": "tag", "n": cps(x.name), "ws": bool(x.add_ws), "a": attrs(x.attrs), "c": seq(x.children)}
    if isinstance(x, HTML):
        return {"k": "html", "s": cps(str(x))}
    if isinstance(x, str):
        return {"k": "text", "s": cps(x)}
    if isinstance(x, HTMLDependency):
        return {"k": "dep", "m": dep_id(x)}
    if isinstance(x, MetadataNode):
        return {"k": "meta"}
    if isinstance(x, (TgfRepr, Tgf)):
        return {"k": "tgf"}
    if isinstance(x, ReprObj):
        return {"k": "repr", "s": cps(x.s)}
    if isinstance(x, TagList):
        return {"k": "list", "c": seq(x)}
    return {"k": "other-" + type(x).__name__}


def attrs(a):
    return [{"n": cps(k), "v": cps(str(v)), "h": isinstance(v, HTML)} for k, v in a.items()]


def seq(xs):
    return [node(x) for x in xs]
