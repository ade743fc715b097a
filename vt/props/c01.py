"""C01: rendered markup parses back to the same element tree."""
from ..catalog import ATTRS, ELEMENTS
from ..core import cps
from ..gen import A, PLAIN, TAG, T, VOID, TreeGen, many_names, share
from .render import PATHS, pages, render_obs, small_trees, has_kind

HOSTILE = "ab &<>\"'\r\n\t;=/-!#x\\`é"
ATTR_NAMES = ["id", "data-x", "href", "@click", ":bind", "x.y", "v-on:a.b", "aria-label",
              "viewBox", "A", "a1", "é", "$", "x-1"]
TAG_NAMES = ["x-y", "a.b", "svg:g", "svg:linearGradient", "X:Y", "my-El", "x.A", "h1", "Z", "feFlood", "my-él", "b0"]


def line(top, c, lvl, eol, addws, path):
    return {"in": {"top": top, "c": c, "lvl": lvl, "eol": eol, "addws": addws, "path": path},
            "q": "tok", "c": c, "out": render_obs(top, c, lvl, eol, addws, path)}


class Gen01(TreeGen):
    def attributes(self):
        r = self.r
        if r.random() < 0.5:
            return []
        pool = ATTR_NAMES if r.random() < 0.7 else ATTRS
        names = r.sample(pool, r.randint(1, 4)) if r.random() > 0.05 else many_names(r)
        return [A(n, self.string(self.attr_text, 0, 8)) for n in names]


def mode(r, top):
    path = r.choice(PATHS)
    if path.startswith("ghs"):
        return dict(lvl=r.choice([0, 0, 1, 4]), eol=r.choice(["\n", "\n", "\r\n", " ", ""]),
                    addws=True if top == "tag" else r.random() < 0.7, path="ghs")
    return dict(lvl=0, eol="\n", addws=True, path=path)


def check(ctx):
    r = ctx.rng
    trees = small_trees(ctx, ["TokInv"],
                        [("BIWXTME", 3), ("BITM", 4)],
                        [("BIWXPTEML", 4), ("BITM", 5)])
    lines = []
    for c in trees:
        if has_kind(c, ("repr", "html")):
            continue
        lines.append(line("list", c, **mode(r, "list")))
        if len(c) == 1 and c[0]["k"] == "tag":
            lines.append(line("tag", c, **mode(r, "tag")))
    # every element name known to the library, childless / with text / with child
    names = sorted(set(VOID) | set(ELEMENTS))
    # raw-text and plaintext elements cannot hold markup children in HTML
    rawish = {"script", "style", "title", "textarea", "xmp", "iframe", "noembed", "noframes",
              "noscript", "plaintext", "template", "listing"}
    for nm in names:
        for ws in (True, False):
            a = [A("id", "x\"<&>'\n")]
            shapes = [TAG(nm, ws), TAG(nm, ws, a=a), TAG(nm, ws, dict(k="meta")),
                      TAG(nm, ws, T("t"))]
            if nm not in rawish:
                shapes += [TAG(nm, ws, T("t&lt;<b>")), TAG(nm, ws, TAG("b", False)),
                           TAG(nm, ws, TAG("div", True, TAG("br", False), T("q")), T("z")),
                           TAG(nm, ws, T(""))]
            for s in shapes:
                lines.append(line("tag", [s], **mode(r, "tag")))
    # every usual attribute name, alone and among others
    for a in ATTRS:
        for v in ("", "v", "on", "a \"'<&>\n", "true", "0", " "):
            c = [TAG(r.choice(PLAIN + VOID), r.random() < 0.5, a=[A(a, v)])]
            lines.append(line("tag", c, **mode(r, "tag")))
        more = [A(b, r.choice(["", "w", "&"])) for b in r.sample(ATTRS, 5) if b != a]
        more.insert(r.randint(0, len(more)), A(a, r.choice(["", "x", a])))
        lines.append(line("tag", [TAG(r.choice(PLAIN), True, T("t"), a=more)], **mode(r, "tag")))
    gens = [Gen01(r, max_nodes=25, max_depth=8, text=HOSTILE, attr_text=HOSTILE,
                  leaves={"text": 8, "num": 2, "meta": 1, "dep": 1}, raw_single=True,
                  names=PLAIN * 3 + VOID + TAG_NAMES + ["title", "textarea", "pre", "script", "style"],
                  lists=True),
            Gen01(r, max_nodes=60, max_depth=20, text=HOSTILE, attr_text=HOSTILE,
                  leaves={"text": 8, "num": 2, "meta": 1}, names=PLAIN + VOID)]
    for _ in range(ctx.pick(5000, 50000)):
        g = gens[0] if r.random() < 0.85 else gens[1]
        if r.random() < 0.5:
            c, top = [g.one()], "tag"
        else:
            c, top = g.forest(), "list"
        lines.append(line(top, c, **mode(r, top)))
    for c in pages(r, ctx.pick(700, 8000), leaves=("meta", "num"), one_raw=True, valid=False):
        top = "tag" if len(c) == 1 and c[0]["k"] == "tag" and r.random() < 0.7 else "list"
        lines.append(line(top, c, **mode(r, top)))
    # the same objects in several places
    for _ in range(ctx.pick(500, 6000)):
        c = share(r, r.choice(gens).forest(), r.choice([1, 2, 3]))
        lines.append(line("list", c, **mode(r, "list")))
    # deep chains
    for d in (50, ctx.pick(100, 115)):
        t = TAG("b", False, T("x<"))
        for i in range(d):
            t = TAG("div" if i % 3 else "span", bool(i % 2), T("&"), t)
        lines.append(line("tag", [t], 0, "\n", True, "ghs"))
    ctx.judge("JudgeRender", "RenderVerdict", lines)
    ctx.assumptions += [
        "script/style/title/textarea hold a single text child, script/style text is free of "
        "metacharacters (an HTML tokenizer does not look for markup inside them)",
        "the tokenizer is spec/Html.tla"]
