"""Snapshots of real object graphs as the heap of spec/Heap.tla."""
from __future__ import annotations

from .build import H, HTML, HTMLDependency, MetadataNode, Tag, TagList, Tgf
from .core import digest as cps      # strings of the heap are only compared


def loose_version(v):
    """The version up to spelling: 1.0 and 1.0.0 are the same version."""
    s = str(v)
    while s.endswith(".0"):
        s = s[:-2]
    return s


def loose(x):
    """Data up to the order of keys and the kind of sequence."""
    if isinstance(x, dict):
        return sorted((str(k), loose(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [loose(y) for y in x]
    return str(x) if isinstance(x, str) else x


class Heap:
    def __init__(self):
        self.objs = []        # keeps every object alive, so ids stay valid
        self.ids = {}
        self.recs = []
        self.texts = {}
        self.docs = {}        # what each document was given

    def id(self, x):
        if isinstance(x, str) and not isinstance(x, HTML):
            # strings are immutable: identified by value
            if x not in self.texts:
                self.texts[x] = self._new(x)
            return self.texts[x]
        k = id(x)
        if k not in self.ids:
            self.ids[k] = self._new(x)
        return self.ids[k]

    def _new(self, x):
        self.objs.append(x)
        self.recs.append(None)
        return len(self.objs)

    def rec(self, x):
        if isinstance(x, Tag):
            return {"k": "tag", "n": cps(x.name), "ws": bool(x.add_ws), "at": self.id(x.attrs), "ch": self.id(x.children)}
        if isinstance(x, dict):
            return {"k": "attrs", "a": [{"n": cps(str(k)), "v": cps(str(v)), "h": isinstance(v, HTML)}
                                        for k, v in x.items()]}
        if isinstance(x, HTML):
            return {"k": "html", "s": cps(str(x))}
        if isinstance(x, str):
            return {"k": "text", "s": cps(x)}
        if isinstance(x, TagList):
            return {"k": "list", "c": [self.id(y) for y in x]}
        if isinstance(x, HTMLDependency):
            f = [x.source, x.script, x.stylesheet, x.meta, x.all_files]
            return {"k": "dep", "n": cps(x.name), "v": cps(str(x.version)), "f": cps(repr(f)),
                    "vl": cps(loose_version(x.version)), "fl": cps(repr(loose(f))),
                    "hd": 0 if x.head is None else self.id(x.head)}
        if isinstance(x, MetadataNode):
            return {"k": "meta", "eq": type(x).__eq__ is not object.__eq__}
        if isinstance(x, H.HTMLDocument):
            c, kw = self.docs[id(x)]
            return {"k": "doc", "c": [self.id(y) for y in c], "kw": cps(repr(kw))}
        if isinstance(x, list):
            return {"k": "list", "c": [self.id(y) for y in x]}
        kept = getattr(x, "kept", None)
        if kept is not None:
            self.id(kept)
        return {"k": "obj", "tgf": hasattr(x, "tagify"), "s": cps(getattr(x, "s", "") if not isinstance(x, Tgf) else "")}

    def delta(self):
        """Objects that are new or changed since the last call."""
        ch = []
        i = 0
        while i < len(self.objs):
            r = self.rec(self.objs[i])
            if r != self.recs[i]:
                self.recs[i] = r
                ch.append({"i": i + 1, "o": r})
            i += 1
        return ch
