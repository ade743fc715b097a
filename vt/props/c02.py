"""C02: plain-text children are inert data."""
import itertools

from ..build import H, TagList, build, build_seq, VIAS
from ..core import cps, guarded, outrec, uncps
from ..catalog import ELEMENTS
from ..gen import HT, META, RP, TAG, T, PLAIN, VOID, TreeGen, wrap_leaves
from ..page import TEXTS
from .render import extreme_trees, long_strings, pages, render_obs, used_before

NAMES2 = ["script-x", "x-script", "style-guide", "my-style", "scripts", "styles", "svg:script", "svg:style", "scriptx",
          "Xscript", "nostyle", "plaintext", "xmp", "noembed", "noframes", "listing", "template", "textArea", "scri", "sty"]
HOST = PLAIN + ["pre", "textarea", "title", "br", "img"]
LOOK = ["&amp;", "&lt;b&gt;", "&#60;", "&#x3c;", "&", "<", ">", "&&amp;", "a<b>c", "</span>",
        "<!-- x -->", "<!DOCTYPE html>", "<?php ?>", "]]>", "<![CDATA[", "&quot;", "&nbsp;",
        "\"'\"", "a\r\nb", "\x00", "\u2028", "\ufeff", "&amp", "&lt", "<script>alert(1)</script>",
        "a&b;c<d>e", "\U0001f600<", "é&ü", "\\<", "%3C", "&AMP;", "<<>>&&"]


def loose(c, path="ghs", top=None):
    top = top or ("tag" if len(c) == 1 and c[0]["k"] == "tag" else "list")
    return {"in": {"c": c, "path": path, "top": top}, "q": "loose", "clause": "text-not-escaped",
            "c": c, "out": render_obs(top, c, path=path)}


def tgf(c, lst):
    return {"k": "tgf", "lst": lst, "r": False, "s": [], "c": c}


def contexts(r, t, small=False):
    """Ways of placing the text leaf t in ordinary elements."""
    nm = r.choice(HOST)
    ws = r.random() < 0.5
    via = r.choice(VIAS)
    out = [
        ([TAG(nm, ws, t, via=via)], "ghs"),
        ([TAG(nm, ws, T("x"), t, via=via)], "str"),
        ([t], "ghs"),
        ([TAG(nm, ws, {"k": "list", "t": r.choice(["list", "tuple", "taglist"]),
                       "c": [T("u"), {"k": "list", "c": [t]}]}, via=via)], "ghs"),
        ([TAG(nm, ws, tgf([t], t["k"] == "num"), via=via)], "str"),
        ([TAG(nm, ws, tgf([T("v"), t], True), via=via)], "render"),
        ([TAG(nm, ws, TAG("b", False), t, TAG("div", True, t), dict(META), via=via)], "repr"),
        ([TAG(nm, ws, dict(META), t, via=via)], "rh"),
        ([TAG(nm, ws, tgf([TAG("em", False, t, t)], False), t, via=via)], "render"),
    ]
    return [r.choice(out)] if small else out


def check(ctx):
    r = ctx.rng
    lines = []

    def esc(s):
        fs = [lambda: H.html_escape(s), lambda: H.html_escape(s, False),
              lambda: H.html_escape(s, attr=False)]
        lines.append({"in": {"s": cps(s)}, "q": "esc", "s": cps(s), "out": outrec(r.choice(fs))})

    # specification strings
    strings = []
    for chars, n in ctx.pick([([38, 60, 62, 59, 97, 34], 4)],
                             [([38, 60, 62, 59, 97, 34, 39, 35], 5), ([38, 60, 62, 10, 13, 32, 47, 33], 4)]):
        strings += ctx.model("MCText", f"MCText {len(chars)} code points, length <= {n}",
                             consts={"Chars": set(chars), "MaxLen": n, "EmitOn": True},
                             invariants=["TextInert", "Emit"])
    for s in strings:
        s = uncps(s)
        esc(s)
        for c, path in contexts(r, T(s), small=True):
            lines.append(loose(c, path))
    for s in LOOK:
        esc(s)
        for kw in ({}, {"sub": True}):
            for c, path in contexts(r, T(s, **kw)) + contexts(r, T(s, **kw)):
                lines.append(loose(c, path))
    # pairs of entity look-alikes
    for a, b in itertools.product(LOOK, LOOK):
        lines.append(loose(*r.choice(contexts(r, T(a + b)))))
    # every code point, in blocks
    blk = 256
    for lo in range(0, 0x110000, blk):
        s = "".join(chr(i) for i in range(lo, lo + blk) if not 0xD800 <= i < 0xE000)
        if s:
            esc(s)
            lines.append(loose([TAG("span", False, T(s))], "ghs"))
            if lo < 0x3000 or not ctx.quick:
                lines.append(loose([TAG("div", True, T("x"), T(s))], "ghs"))
    # single characters
    for i in range(0, 0x300):
        lines.append(loose(*r.choice(contexts(r, T(chr(i))))))
        esc(chr(i))
    # every element name (but the two whose text is raw)
    meta = [s for s in LOOK if set(s) & set("&<>")]
    for nm in ELEMENTS + NAMES2:
        if nm in ("script", "style"):
            continue
        for c in ([T("<b>&amp;")], [T("a"), T("x > y")]):
            lines.append(loose([TAG(nm, r.random() < 0.5, *c, via=r.choice(VIAS))], r.choice(["ghs", "str", "render"])))
        t = T(r.choice(meta))
        for c in ([t], [T("a"), t], [TAG("i", False), t], [t, TAG("p", True)], [dict(META), t]):
            lines.append(loose([TAG(nm, r.random() < 0.5, *c, via=r.choice(VIAS))], r.choice(["ghs", "str", "render"])))
    # numbers
    nums = [0, 1, -1, 42, 10 ** 30, -10 ** 18, 0.0, -0.0, 1.5, 1e300, 1e-7, 1e16, 123456789.125,
            float("inf"), float("-inf"), float("nan"), 2 ** 53 + 1.0]
    for v in nums:
        for kind in ({"k": "num", "s": cps(str(v))},):
            for c, path in contexts(r, kind):
                lines.append(loose(c, path))
    for b in ("True", "False"):
        for c, path in contexts(r, {"k": "num", "s": cps(b), "bool": True}):
            lines.append(loose(c, path))
    # random trees of hostile text
    hostile = "&<>;\"'ab \n#x!-/=é"
    g = TreeGen(r, max_nodes=18, text=hostile, attr_text="ab",
                names=PLAIN + VOID + ["pre", "textarea", "title"], lists=True,
                leaves={"text": 10, "num": 2, "meta": 1, "html": 1, "repr": 1}, html_text="ab<>&")
    for _ in range(ctx.pick(2500, 40000)):
        c = [g.one()] if r.random() < 0.5 else g.forest()
        if r.random() < 0.3:
            k = r.randint(0, len(c))
            c = c[:k] + [tgf([n for n in c[k:] if n["k"] not in ("list", "none", "num")], True)]
            lines.append(loose(c, r.choice(["str", "render"]), "list"))
        elif r.random() < 0.3:
            lines.append(loose(wrap_leaves(r, c, r.choice([0.2, 0.5, 1])), r.choice(["str", "render", "rh"])))
        else:
            lines.append(loose(c, r.choice(["ghs", "str", "render", "repr"])))
    for c in pages(r, ctx.pick(500, 6000), valid=False):
        if r.random() < 0.3:
            c = wrap_leaves(r, c, 0.2)
            lines.append(loose(c, r.choice(["str", "render", "rh"])))
        else:
            lines.append(loose(c, r.choice(["ghs", "str", "render", "repr"])))
    for s in TEXTS:
        esc(s)
        for c, path in contexts(r, T(s)):
            lines.append(loose(c, path))
    # strings met before in another role
    for s in used_before(r, ctx.pick(400, 4000)):
        k = r.random()
        if k < 0.2:
            esc(s)
        else:
            lines.append(loose(*r.choice(contexts(r, T(s)))))
    # long strings, deep and wide trees
    for h in ("<", "&lt;", "</span><b>", ">"):
        for s in long_strings(h):
            esc(s)
            lines.append(loose(*r.choice(contexts(r, T(s)))))
    leaves = lambda: [T(r.choice(LOOK)) for _ in range(r.choice([1, 1, 2]))]
    for t in extreme_trees(r, leaves, ctx.quick):
        lines.append(loose([t], r.choice(["ghs", "str", "render"])))
        lines.append(loose([T("<"), t, T("&")], r.choice(["ghs", "str", "render"])))
    ctx.judge("JudgeText", "TextVerdict", lines)
    ctx.assumptions += ["lone surrogates are not text", "script/style hosts are C04"]
