"""Shared drivers for the rendering properties C01, C05, C06, C07."""
from ..build import H, HTML, Tag, TagList, build, build_seq, fresh
from ..core import cps, guarded, outrec, uncps
from ..gen import TAG, share
from ..page import Page


def render_obs(top, c, lvl=0, eol="\n", addws=True, path="ghs"):
    """Render with the real library; top: 'tag' (c = [tag]) or 'list'."""
    def go():
        fresh()
        x = build(c[0]) if top == "tag" else TagList(*build_seq(c))
        if path == "ghs":
            if top == "tag":
                return x.get_html_string(lvl, eol)
            return x.get_html_string(lvl, eol, add_ws=addws)
        if path == "ghskw":
            return x.get_html_string(indent=lvl, eol=eol)
        if path == "str":
            return str(x)
        if path == "repr":
            return repr(x)
        if path == "rh":
            return x._repr_html_()
        if path == "render":
            return x.render()["html"]
        raise ValueError(path)
    return outrec(go)


PATHS = ["ghs", "ghs", "ghs", "ghskw", "str", "repr", "rh", "render"]


def pick_mode(r, top):
    path = r.choice(PATHS)
    if path == "ghs":
        return dict(lvl=r.choice([0, 0, 0, 1, 2, 5]),
                    eol=r.choice(["\n", "\n", "\r\n", "", "@", "\n\n"]),
                    addws=True if top == "tag" else r.random() < 0.7, path=path)
    if path == "ghskw":
        return dict(lvl=r.choice([0, 1, 3]), eol=r.choice(["\n", "\r\n"]), addws=True, path=path)
    return dict(lvl=0, eol="\n", addws=True, path=path)


def small_trees(ctx, invariants, quick_cfgs, thorough_cfgs):
    """Model-check MCTree and return the trees it enumerated."""
    cases = []
    for alpha, n in (quick_cfgs if ctx.quick else thorough_cfgs):
        cases += ctx.model("MCTree", f"MCTree {{{','.join(alpha)}}} <= {n} nodes",
                           consts={"Alphabet": set(alpha), "MaxNodes": n, "EmitOn": True},
                           invariants=list(invariants) + ["Emit"], min_states=50)
    return cases


def pages(r, n, shared=True, **kw):
    """Realistic forests, sometimes with objects that occur several times."""
    g = Page(r, **kw)
    for _ in range(n):
        c = [g.one()] if r.random() < 0.5 else g.forest()
        if shared and r.random() < 0.25:
            c2 = share(r, c, r.choice([1, 1, 2]))
            if not kw.get("valid", True) or valid_nest(c2):
                c = c2
        yield c


def valid_nest(c):
    def has_block(c):
        return any(n["k"] == "tag" and (n["ws"] or has_block(n["c"])) for n in c)
    return all(n["k"] != "tag" or ((n["ws"] or not has_block(n["c"])) and valid_nest(n["c"]))
               for n in c)


def has_kind(c, kinds):
    return any(n["k"] in kinds or (n["k"] == "tag" and has_kind(n["c"], kinds)) for n in c)


# ---- extremes: long strings, deep and wide trees -----------------------------
LENGTHS = [63, 64, 65, 127, 256, 1023, 1025, 4097, 9000]


def used_before(r, n):
    """New strings that the library has already met, in roles of every kind."""
    roles = [lambda s: str(Tag("i", title=s)), lambda s: str(Tag("i", s)), lambda s: str(TagList("x", s)),
             lambda s: str(Tag("script", s)), lambda s: str(Tag("style", "x", s)), lambda s: HTML("") + s, lambda s: s + HTML(""),
             lambda s: H.html_escape(s), lambda s: H.html_escape(s, True), lambda s: str(Tag("i", HTML(s))),
             lambda s: str(Tag("i", title=HTML(s))), lambda s: Tag("i").add_class(s).add_class(HTML("x")), lambda s: str(Tag("i", {"id": s}, id="y"))]
    for _ in range(n):
        k = r.choice([3, 8, 20, 45, 70, 140, 300])
        s = "".join(r.choice(["a", "b c", "&", "<", ">", "\"", "'", "\n", "\r", "&amp;", "word ", "é", "</b>"]) for _ in range(k)) + "%x" % r.getrandbits(40)
        for f in r.choices(roles, k=r.choice([1, 1, 2, 5])):
            guarded(lambda: f(s))
        yield s


def long_strings(hostile, lengths=LENGTHS, benign="a"):
    """Strings whose interesting part comes late (or early, or in the middle)."""
    for i, n in enumerate(lengths):
        yield benign * n + hostile
        if i % 2:
            yield hostile + benign * n
        else:
            yield benign * (n // 2) + hostile + benign * (n // 2)


def deep(r, leaves, depth, names=("div", "span", "p", "b", "ul", "section"), valid=False):
    """A chain of tags with siblings around every level; leaves() makes leaf nodes."""
    t = TAG(r.choice(names), False, *leaves())
    inline = valid and r.randint(0, depth)
    for i in range(depth):
        ws = (i >= inline) if valid else r.random() < 0.6
        before = leaves() if r.random() < 0.5 else []
        after = leaves() if r.random() < 0.5 else []
        t = TAG(r.choice(names), ws, *before, t, *after)
    return t


def wide(r, leaves, n, names=("div", "span", "br", "p"), valid=False):
    kids = []
    while len(kids) < n:
        kids += leaves()
        if r.random() < 0.3:
            kids.append(TAG(r.choice(names), r.random() < 0.5))
    return TAG("div", valid or r.random() < 0.7, *kids)


def extreme_trees(r, leaves, quick, valid=False):
    out = []
    for d in ((9, 13, 17, 33, 64) if quick else (9, 10, 13, 17, 20, 33, 50, 64, 90, 110)):
        for _ in range(3):
            out.append(deep(r, leaves, d, valid=valid))
    for n in ((12, 40, 130) if quick else (12, 40, 130, 300, 700)):
        for _ in range(2):
            out.append(wide(r, leaves, n, valid=valid))
    return out
