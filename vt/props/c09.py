"""C09: tagifiable objects render as their expansion, spliced in place."""
from copy import deepcopy

from ..abst import seq
from ..build import H, TGFS, TagList, build, build_seq
from ..core import cps, guarded, outrec
from ..deps import dep_ids
from ..gen import HT, META, RP, TAG, T, wrap_leaves
from .c11 import DocGen
from .render import pages


class ExpGen(DocGen):
    """Trees with tagifiable objects at any position."""

    def expansion(self, depth=0):
        r = self.r
        one = lambda: r.choice([
            TAG("div", True), TAG("span", False, T("s")), T("te<xt"), HT("<i>h</i>"), self.d.node(), dict(META),
            TAG("p", True, self.d.node(), TAG("b", False, T("q"))), T(""), RP("<u>"), TAG("ul", True, TAG("li", True)),
            TAG("script", True, T("a<b"))])

        def item():
            if depth < 3 and r.random() < 0.3:
                x = self.tgfnode(depth + 1)
                return x if r.random() < 0.5 else TAG("div", True, x, T("in"))
            return one()
        if r.random() < 0.6:
            return True, [item() for _ in range(r.choice([0, 0, 1, 2, 3, 4]))]
        return False, [item()]

    def tgfnode(self, depth=0):
        r = self.r
        lst, c = self.expansion(depth)
        n = {"k": "tgf", "lst": lst, "c": c, "r": r.random() < 0.15, "s": cps("[self]"), "cached": r.random() < 0.2}
        if lst and r.random() < 0.12:
            n["subl"] = True
        if r.random() < 0.25:
            n["var"] = r.choice(sorted(TGFS))
        return n

    def place(self, c):
        """Insert several tagifiables, often next to each other."""
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            x = c
            while True:
                sub = [y for y in x if y["k"] in ("tag", "list")]
                if sub and r.random() < 0.55:
                    x = r.choice(sub)["c"]
                else:
                    break
            i = r.choice([0, len(x), r.randint(0, len(x))])
            for _ in range(r.choice([1, 1, 2, 3])):
                x.insert(i, self.tgfnode())
        return c


def expand(c):
    """The tree with every tagifiable replaced (only to build the comparison tree;
    the judge computes its own expansion from the original)."""
    out = []
    for n in c:
        if n["k"] == "tgf":
            out += expand(n["c"])
        elif n["k"] in ("tag", "list"):
            out.append({**n, "c": expand(n["c"])})
        else:
            out.append(n)
    return out


def make(c, top):
    if top == "tag":
        return build(c[0])
    return TagList(*build_seq(c))


def htmlrec(fn):
    return outrec(lambda: fn()["html"])


def line(c, top):
    e = expand(c)
    new = lambda: make(c, top)
    ok, orig = guarded(lambda: seq(new() if top == "list" else [new()]))

    def tg():
        t = new().tagify()
        return seq([t] if top == "tag" else t)
    okt, t = guarded(tg)
    doc = lambda cc, tp: (H.HTMLDocument(make(cc, tp)) if tp == "tag" else H.HTMLDocument(*build_seq(cc)))
    return {
        "in": {"c": c, "top": top}, "q": "exp", "c": c, "top": top,
        "out": htmlrec(lambda: new().render()), "plain": htmlrec(lambda: make(e, top).render()),
        "doc": htmlrec(lambda: doc(c, top).render()), "plaindoc": htmlrec(lambda: doc(e, top).render()),
        "deps": dep_ids(lambda: new().render()["dependencies"]),
        "docdeps": dep_ids(lambda: doc(c, top).render()["dependencies"]),
        "raw": {"ok": outrec(lambda: new().get_html_string())["ok"]},
        "tagified": {"ok": okt, "c": t if okt else [], "e": "" if okt else t},
        "orig": orig if ok else [],
    }


def check(ctx):
    r = ctx.rng
    cases = ctx.model("MCExp", "MCExp", consts={"MaxLen": ctx.pick(3, 4), "EmitOn": True},
                      invariants=["LoopInv", "PrefixInv", "NoneLeft", "Fixed", "Emit"])
    n = ctx.pick(900, 15000)
    lines = []
    for c in r.sample(cases, min(n, len(cases))):
        if r.random() < 0.3:
            lines.append(line([TAG(r.choice(["div", "span", "script", "body", "html"]), True, *c)], "tag"))
        else:
            lines.append(line(c, "list"))
    for _ in range(ctx.pick(900, 20000)):
        g = ExpGen(r, max_nodes=r.choice([2, 6, 12]), valid=r.random() < 0.8, nested=0.05)
        c = g.content()
        k = r.random()
        if k < 0.15:
            # the whole content is one tagifiable
            # (None, numbers and lists are no results of a tagify() method)
            one = len(c) == 1 and c[0]["k"] not in ("none", "num", "list")
            c = [{"k": "tgf", "lst": not one or r.random() < 0.5, "r": False, "c": c, "cached": r.random() < 0.3}]
        elif k < 0.9:
            c = g.place(deepcopy(c))
        if r.random() < 0.5 and len(c) == 1 and c[0]["k"] == "tag":
            lines.append(line(c, "tag"))
        else:
            lines.append(line(c, "list"))
    # expansions of many items, many expansions, expansions within expansions
    for n in ctx.pick((20, 70, 140), (20, 40, 70, 140, 300)):
        for _ in range(ctx.pick(3, 10)):
            g = ExpGen(r, max_nodes=4, nested=0)
            kids = [g.expansion(9)[1] for _ in range(n)]
            kids = [(k + [T("k%d" % i)])[0] for i, k in enumerate(kids)]
            big = {"k": "tgf", "lst": True, "r": False, "c": kids, "subl": r.random() < 0.2}
            lines.append(line(r.choice([[T("a"), big, T("b")], [TAG("div", True, big, T("z"))], [big, big]]), "list"))
            each = [{"k": "tgf", "lst": True, "r": False, "c": [k] * r.choice([0, 1, 1, 2])} for k in kids[:n // 2]]
            lines.append(line([TAG("ul", True, *each)], "tag"))
    for n in (5, 12, 30):
        x = [T("deep")]
        for i in range(n):
            x = [{"k": "tgf", "lst": True, "r": False, "c": [T("l%d" % i), *x] if i % 3 else [TAG("div", True, *x)]}]
        lines.append(line(x, "list"))
    for c in pages(r, ctx.pick(120, 3000), shared=False):
        g = ExpGen(r, max_nodes=4, nested=0.05)
        c = g.sprinkle(wrap_leaves(r, c, r.choice([0.1, 0.3])), r.choice([0, 1, 3]))
        if r.random() < 0.5:
            c = g.place(deepcopy(c))
        lines.append(line(c, "tag" if len(c) == 1 and c[0]["k"] == "tag" else "list"))
    ctx.judge("JudgeDoc", "DocVerdict", lines)
    ctx.assumptions += ["tagify() methods return fully tagified values, as their contract says"]
