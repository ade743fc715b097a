"""C05: no whitespace is ever injected into inline content."""
from ..core import cps
from ..catalog import ELEMENTS
from ..gen import HT, META, PUNCT, RP, T, TAG, TreeGen, share
from ..page import INERTS, SNIPS
from .render import extreme_trees, pages, pick_mode, render_obs, small_trees


def line(top, c, lvl, eol, addws, path):
    return {"in": {"top": top, "c": c, "lvl": lvl, "eol": eol, "addws": addws, "path": path},
            "q": "gap", "c": c, "lvl": lvl, "eol": cps(eol),
            "out": render_obs(top, c, lvl, eol, addws, path)}


def check(ctx):
    r = ctx.rng
    trees = small_trees(ctx, ["GapInv"],
                        [("BIWTMR", 3), ("BITM", 4)],
                        [("BIWXPZTEHRML", 3), ("BITMR", 5), ("BIXTWL", 4)])
    lines = []
    for c in trees:
        lines.append(line("list", c, 0, "\n", True, "ghs"))
        lines.append(line("list", c, **pick_mode(r, "list")))
        if len(c) == 1 and c[0]["k"] == "tag":
            lines.append(line("tag", c, **pick_mode(r, "tag")))
    n = ctx.pick(7000, 70000)
    gens = [TreeGen(r, max_nodes=30, max_depth=8, p_block=0.5, lists=True),
            TreeGen(r, max_nodes=25, max_depth=8, p_block=0.15, lists=True),
            TreeGen(r, max_nodes=15, max_depth=8, p_block=0.0),
            TreeGen(r, max_nodes=20, max_depth=10, p_block=0.4,
                    leaves={"text": 1, "meta": 2, "repr": 2})]
    gens += [TreeGen(r, max_nodes=25, max_depth=6, p_block=p, text=PUNCT, snips=SNIPS, texts=INERTS) for p in (0.0, 0.2, 0.5)]
    for _ in range(n):
        g = r.choice(gens)
        if r.random() < 0.5:
            c, top = [g.one()], "tag"
        else:
            c, top = g.forest(), "list"
        lines.append(line(top, c, **pick_mode(r, top)))
    # every element name in every role
    for nm in ELEMENTS:
        for ws in (True, False):
            for c in ([TAG(nm, ws)], [TAG(nm, ws, T("t"))], [TAG("div", True, T("a"), TAG(nm, ws, dict(META)), T("b"))],
                      [TAG(nm, ws, T("t"), TAG("b", False), RP("r")), TAG(nm, ws), HT("h"), TAG("i", False, TAG(nm, False))],
                      [TAG(nm, True, TAG(nm, ws, T("")), TAG(nm, ws, T("x"), TAG("u", False)), TAG(nm, ws))]):
                top = "tag" if len(c) == 1 and r.random() < 0.6 else "list"
                lines.append(line(top, c, **pick_mode(r, top)))
    for c in pages(r, ctx.pick(600, 8000), inert=True, attr_inert=True, valid=False):
        top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.7 else "list"
        lines.append(line(top, c, **pick_mode(r, top)))
    # the same objects in several places
    for _ in range(ctx.pick(400, 5000)):
        c = share(r, g.forest(), r.choice([1, 2, 3]))
        lines.append(line("list", c, **pick_mode(r, "list")))
    # long lines
    for n in (300, 900, 2500, 5000):
        for _ in range(ctx.pick(4, 10)):
            w = lambda: r.choice([T, HT, RP])("w" * r.choice([5, n // 3, n]))
            run = [r.choice([w, lambda: TAG("b", False, w(), w()), lambda: TAG("br", False)])() for _ in range(r.randint(2, 12))]
            c = r.choice([run, [TAG("div", True, *run)], [TAG("div", True, TAG("p", True, T("x")), *run, TAG("p", True))], [TAG("span", False, *run)]])
            lines.append(line("list", c, **pick_mode(r, "list")))
    # deep and wide trees, long lines, deep indentation
    leaves = lambda: [g.leaf() for _ in range(r.choice([1, 1, 2, 3]))]
    for t in extreme_trees(r, leaves, ctx.quick, valid=False):
        for _ in range(2):
            m = pick_mode(r, "tag")
            if m["path"] == "ghs" and r.random() < 0.3:
                m["lvl"] = r.choice([11, 24, 40])
            lines.append(line("tag", [t], **m))
    ctx.judge("JudgeRender", "RenderVerdict", lines)
    ctx.assumptions += ["leaf text carries no markup metacharacters (escaping is C02-C04)",
                        "tags include block tags nested inside inline tags"]
