"""C07: metadata nodes leave no trace in the markup."""
from copy import deepcopy

from ..core import cps
from ..catalog import ELEMENTS
from ..gen import DEP, META, PUNCT, TAG, T, HT, RP, TreeGen
from ..page import INERTS, SNIPS
from .render import extreme_trees, pages, pick_mode, render_obs, small_trees


def erase(c):
    return [dict(n, c=erase(n["c"])) if n["k"] == "tag" else n
            for n in c if n["k"] not in ("meta", "dep")]


def slots(c, path=()):
    """All insertion positions (path to child list, index)."""
    for i in range(len(c) + 1):
        yield path, i
    for i, n in enumerate(c):
        if n["k"] == "tag":
            yield from slots(n["c"], path + (i,))


def insert_at(c, chosen, mk):
    c = deepcopy(c)
    for path, i in sorted(chosen, key=lambda s: (len(s[0]), s), reverse=True):
        # deepest first, then right to left, so earlier positions stay valid
        x = c
        for j in path:
            x = x[j]["c"]
        x.insert(i, mk())
    return c


def meta_node(r):
    k = r.random()
    if k < 0.4:
        return dict(META)
    d = DEP("dep%d" % r.randint(0, 2), "1.%d" % r.randint(0, 2))
    if k < 0.7:
        d["d"]["head"] = [T("hd"), TAG("title", True, T("x"))]
        d["d"]["script"] = {"src": "a.js"}
        d["d"]["source"] = {"href": "http://x/y"}
    return d


def line(top, c, c0, lvl, eol, addws, path):
    return {"in": {"top": top, "c": c, "c0": c0, "lvl": lvl, "eol": eol, "addws": addws,
                   "path": path},
            "q": "meta", "c": c, "c0": c0,
            "out": render_obs(top, c, lvl, eol, addws, path),
            "out0": render_obs(top, c0, lvl, eol, addws, path)}


def check(ctx):
    r = ctx.rng
    trees = small_trees(ctx, ["MetaInv"],
                        [("BIWTM", 3), ("BITM", 4)],
                        [("BIWXPZTEHRM", 3), ("BITMR", 5), ("WXTM", 5)])
    lines = []
    for c in trees:
        c0 = erase(c)
        if c0 == c:
            continue
        if c0:
            lines.append(line("list", c, c0, 0, "\n", True, "ghs"))
            lines.append(line("list", c, c0, **pick_mode(r, "list")))
            if len(c) == 1 and c[0]["k"] == "tag":
                lines.append(line("tag", c, c0, **pick_mode(r, "tag")))
        else:
            lines.append(line("list", c, c0, **pick_mode(r, "list")))
    # every subset of insertion positions of hand-picked shapes
    shapes = [[TAG("br", False)], [TAG("hr", True)], [TAG("div", True)], [TAG("span", False)],
              [TAG("div", True, T("a"))], [TAG("div", True, HT("a"))],
              [TAG("div", True, RP("a"))], [TAG("div", True, T(""))],
              [TAG("script", True, T("a"))], [TAG("textarea", True, T("a"))],
              [TAG("p", True, T("a"), TAG("b", False))],
              [TAG("div", True, TAG("img", False))], [T("a"), TAG("div", True)],
              [TAG("i", False), TAG("div", True)], [T("a"), T("b")]]
    for sh in shapes:
        sl = list(slots(sh))
        for m in range(1, 1 << len(sl)) if len(sl) <= 6 else [r.randrange(1, 1 << len(sl)) for _ in range(40)]:
            c = insert_at(sh, [s for b, s in enumerate(sl) if m >> b & 1], lambda: meta_node(r))
            top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.7 else "list"
            lines.append(line(top, c, sh, **pick_mode(r, top)))
    for nm in ELEMENTS:
        for sh in ([TAG(nm, r.random() < 0.5)], [TAG(nm, r.random() < 0.5, T("a"))],
                   [T("x"), TAG(nm, r.random() < 0.5, T("a"), TAG("b", False)), T("y")]):
            sl = list(slots(sh))
            for _ in range(3):
                c = insert_at(sh, [r.choice(sl) for _ in range(r.choice([1, 2, 4]))], lambda: meta_node(r))
                top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.7 else "list"
                lines.append(line(top, c, sh, **pick_mode(r, top)))
    g0 = TreeGen(r, max_nodes=20, max_depth=7,
                leaves={"text": 6, "html": 2, "repr": 2, "num": 1})
    g1 = TreeGen(r, max_nodes=14, max_depth=5, p_block=0.4, text=PUNCT, snips=SNIPS, texts=INERTS,
                 leaves={"text": 5, "html": 3, "repr": 3, "num": 1})
    for i in range(ctx.pick(3500, 40000)):
        g = (g0, g0, g1)[i % 3]
        if r.random() < 0.5:
            c0, top = [g.one()], "tag"
        else:
            c0, top = g.forest(), "list"
        c0 = erase(c0)
        sl = list(slots(c0))
        if top == "tag":
            sl = [s for s in sl if s[0]]
            if not sl:
                continue
        k = r.choice([1, 1, 2, 3, len(sl)])
        c = insert_at(c0, [r.choice(sl) for _ in range(k)], lambda: meta_node(r))
        lines.append(line(top, c, c0, **pick_mode(r, top)))
    for c0 in pages(r, ctx.pick(500, 6000), inert=True, attr_inert=True, valid=False, leaves=("html", "repr", "num")):
        sl = list(slots(c0))
        c = insert_at(c0, [r.choice(sl) for _ in range(r.choice([1, 2, 5, len(sl)]))], lambda: meta_node(r))
        lines.append(line("list", c, c0, **pick_mode(r, "list")))
    # deep and wide trees with metadata in every third gap
    for t in extreme_trees(r, lambda: [g.leaf() for _ in range(r.choice([1, 1, 2]))], ctx.quick):
        c0 = erase([t])
        sl = [s for s in slots(c0) if s[0]]
        c = insert_at(c0, r.sample(sl, max(1, len(sl) // 3)), lambda: meta_node(r))
        lines.append(line("tag", c, c0, **pick_mode(r, "tag")))
    ctx.judge("JudgeRender", "RenderVerdict", lines)
