"""Seeded generators of abstract trees."""
from __future__ import annotations

from copy import deepcopy

from .build import VIAS
from .core import cps, uncps

VOID = ["area", "base", "br", "col", "command", "embed", "hr", "img", "input",
        "keygen", "link", "meta", "param", "source", "track", "wbr"]
PLAIN = ["div", "span", "p", "a", "b", "em", "ul", "li", "section", "h1", "table", "tr",
         "td", "label", "button", "code", "i", "custom-el", "x", "svg", "linearGradient",
         "svg:rect", "select", "option", "h6", "body", "head", "html", "main", "form"]
TEXTY = ["pre", "textarea", "title", "script", "style"]
PUNCT = "abcdeXYZ019 .,:;-()!?/%#@*+=_[]{}|~^$`\\é日\u00a0"
INERT = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789"


def T(s, **kw):
    return {"k": "text", "s": cps(s), **kw}


def HT(s):
    return {"k": "html", "s": cps(s)}


def RP(s):
    return {"k": "repr", "s": cps(s)}


META = {"k": "meta"}


def TAG(name, ws, *c, a=(), via="ctor"):
    return {"k": "tag", "n": cps(name), "ws": ws, "a": list(a), "c": list(c), "via": via}


def A(name, v, h=False):
    return {"n": cps(name), "v": cps(v), "h": h}


def DEP(name="d", version="1.0", **kw):
    return {"k": "dep", "d": {"name": name, "version": version, **kw}}


def many_names(r):
    """More attributes than usual, in no particular order."""
    names = ["n%d" % i for i in range(r.choice([10, 17, 30]))] + ["id", "class", "z", "A"]
    r.shuffle(names)
    return names


def wrap_leaves(r, c, p, kinds=("text", "html", "num")):
    """Some leaves of a forest come out of tagifiable objects instead."""
    out = []
    for n in c:
        if n["k"] in ("tag", "list"):
            n = {**n, "c": wrap_leaves(r, n["c"], p, kinds)}
        elif n["k"] in kinds and r.random() < p:
            lst = r.random() < 0.5 or n["k"] == "num"
            n = {"k": "tgf", "lst": lst, "r": False, "s": [], "c": [n]}
        out.append(n)
    return out


_sh = 0


def share(r, c, n=1):
    """The forest with some tags (or other nodes) occurring in several places as one object."""
    global _sh
    c = deepcopy(c)
    for _ in range(n):
        nodes = []

        def walk(xs):
            for x in xs:
                if x["k"] in ("tag", "repr", "html", "text") and "sh" not in x:
                    nodes.append(x)
                if x["k"] == "tag" and "sh" not in x:
                    walk(x["c"])
        walk(c)
        tags = [x for x in nodes if x["k"] == "tag"]
        if not nodes:
            return c
        x = r.choice(tags if tags and r.random() < 0.8 else nodes)
        if "'sh'" in str(x):
            continue
        places = []

        def where(xs):
            places.append(xs)
            for y in xs:
                if y["k"] == "tag" and y is not x and "sh" not in y and uncps(y["n"]) not in TEXTY:
                    where(y["c"])
        where(c)
        _sh += 1
        x["sh"] = _sh
        for _ in range(r.choice([1, 1, 2])):
            xs = r.choice(places)
            at = [i for i, y in enumerate(xs) if y is x]
            i = at[0] + r.randint(0, 1) if at and r.random() < 0.7 else r.randint(0, len(xs))
            xs.insert(i, deepcopy(x))
    return c


class TreeGen:
    """Random trees.  opts:
    text: alphabet for text leaves      leaves: weights of leaf kinds
    valid: inline tags contain no block tags
    p_block: probability a tag is block; lists: allow nested lists / None
    """

    def __init__(self, rng, *, max_nodes=25, max_depth=6, text=INERT, leaves=None,
                 valid=False, p_block=0.5, names=None, attrs=True, attr_text=INERT,
                 vias=True, lists=False, spacey=True, raw_single=False, html_text=None, snips=(), texts=()):
        self.r = rng
        self.max_nodes, self.max_depth = max_nodes, max_depth
        self.text, self.valid, self.p_block = text, valid, p_block
        self.leaves = leaves or {"text": 6, "html": 2, "repr": 2, "meta": 1, "num": 1}
        self.names = names or (PLAIN * 2 + VOID + TEXTY)
        self.attrs, self.attr_text, self.vias = attrs, attr_text, vias
        self.lists, self.spacey, self.raw_single = lists, spacey, raw_single
        self.html_text = html_text or text
        self.snips, self.texts = list(snips), list(texts)     # whole leaves

    def string(self, alphabet, lo=0, hi=6):
        r = self.r
        s = "".join(r.choice(alphabet) for _ in range(r.randint(lo, hi)))
        if self.spacey and alphabet is self.text and r.random() < 0.15:
            s = r.choice([" " + s, s + " ", s + "\n  " + s, "\n" + s, s + "\n", "\t", " ", "\n", s + "\n\n", s + "\n  ",
                          s + "\r\n", "\n\n" + s])
        return s

    def leaf(self):
        r = self.r
        k = r.choices(list(self.leaves), list(self.leaves.values()))[0]
        if k == "text" and self.texts and r.random() < 0.2:
            return T(r.choice(self.texts))
        if k in ("html", "repr") and self.snips and r.random() < 0.3:
            return (HT if k == "html" else RP)(r.choice(self.snips))
        if k == "text":
            return T(self.string(self.text, 0, 6))
        if k == "html":
            return HT(self.string(self.html_text, 0, 6))
        if k == "repr":
            return RP(self.string(self.html_text, 0, 6))
        if k == "num":
            v = r.choice([0, 1, 42, -7, 3.5, 1e22, 0.1, -0.0, 10 ** 20])
            return {"k": "num", "s": cps(str(v))}
        if k == "dep":
            return DEP("d%d" % r.randint(0, 3), "1.%d" % r.randint(0, 3),
                       head=[T("headtext")] if r.random() < 0.5 else [])
        return dict(META)

    def attributes(self):
        r = self.r
        if not self.attrs or r.random() < 0.6:
            return []
        names = r.sample(["id", "data-x", "href", "title", "x-y-z", "aria-label", "@click",
                          ":bind", "viewBox", "a1"], r.randint(1, 3))
        if r.random() < 0.06:
            names = many_names(r)
        return [A(n, self.string(self.attr_text, 0, 5)) for n in names]

    def tree(self, budget=None, depth=0, in_inline=False):
        r = self.r
        name = r.choice(self.names)
        ws = r.random() < self.p_block
        if self.valid and in_inline:
            ws = False
        kids = []
        if name in VOID and r.random() < 0.8:
            kids = [dict(META)] if r.random() < 0.2 else []
        elif name in TEXTY and self.raw_single:
            kids = [T(self.string(self.text if name in ("title", "textarea", "pre") else INERT, 0, 6))
                    ] if r.random() < 0.8 else []
        else:
            kids = self.kids(depth + 1, in_inline or not ws)
        return TAG(name, ws, *kids, a=self.attributes(),
                   via=r.choice(VIAS) if self.vias and r.random() < 0.5 else "ctor")

    def kids(self, depth=0, in_inline=False):
        r = self.r
        out = []
        n = r.choices([0, 1, 2, 3, 4, 6], [2, 4, 4, 3, 2, 1])[0]
        for _ in range(n):
            if self.left <= 0:
                break
            self.left -= 1
            if depth < self.max_depth and r.random() < 0.45:
                out.append(self.tree(None, depth, in_inline))
            elif self.lists and r.random() < 0.1:
                out.append({"k": "list", "t": r.choice(["list", "tuple", "taglist"]),
                            "c": self.kids(depth + 1, in_inline)})
            elif self.lists and r.random() < 0.05:
                out.append({"k": "none"})
            else:
                out.append(self.leaf())
        return out

    def forest(self):
        self.left = self.r.randint(1, self.max_nodes)
        k = self.kids(0)
        return k or [self.leaf()]

    def one(self):
        self.left = self.r.randint(1, self.max_nodes)
        return self.tree(None, 0)
