"""C04: trusted markup is verbatim; escaping happens exactly once."""
import itertools
import os

from ..build import (H, HTML, Tag, TagList, build, build_expr, build_seq, VIAS)
from ..core import cps, guarded, outrec, scratch, uncps
from ..gen import A, HT, META, PLAIN, RP, TAG, T, VOID, TreeGen, wrap_leaves
from ..page import SNIPS, TEXTS
from .render import extreme_trees, long_strings, pages, render_obs, used_before
from .c03 import V, P, attr_line, ctor

ATOMS = ["&", "<b>", "&amp;", "a", "\"'", "</i>\n", "", "&lt;", ";"]
RAWS = ["<b>&amp;</b>", "a & b < c > d", "\"'\r\n", "<!-- c -->", "</div>", "&", "", " x ", "\n  y\n",
        "<script>1 < 2 && 3</script>", "&lt;", "é\U0001f600\x00", "{{ x }}", "\\n", "%s", "$1\\1"]


def A_(t, s, **kw):
    return {"t": t, "s": cps(s), **kw}


def cat(l, r, **kw):
    return {"t": "cat", "l": l, "r": r, **kw}


def has_html(e):
    return has_html(e["l"]) or has_html(e["r"]) if e["t"] == "cat" else e["t"] == "html"


def evaluable(e):
    """Plain operands are only added to plain operands as strings."""
    if e["t"] != "cat":
        return True
    if not (evaluable(e["l"]) and evaluable(e["r"])):
        return False
    if has_html(e["l"]) or has_html(e["r"]):
        return True
    return not has_obj(e)


def has_obj(e):
    return has_obj(e["l"]) or has_obj(e["r"]) if e["t"] == "cat" else e["t"] == "obj"


def trees_over(atoms):
    """All groupings of a sequence of operands."""
    if len(atoms) == 1:
        yield atoms[0]
        return
    for i in range(1, len(atoms)):
        for l in trees_over(atoms[:i]):
            for r in trees_over(atoms[i:]):
                yield cat(l, r)


def operands(e):
    return operands(e["l"]) + operands(e["r"]) if e["t"] == "cat" else [e]


def cat_line(e):
    ok, v = guarded(lambda: build_expr(e))
    if not ok:
        return {"in": {"e": e}, "q": "cat", "e": e, "html": False,
                "val": {"ok": False, "s": [], "e": v}}
    isH = isinstance(v, HTML)
    return {"in": {"e": e}, "q": "cat", "e": e, "html": isH,
            "val": outrec(lambda: v.as_string() if isH else v)}


def HTS(s):
    """An instance of a subclass of HTML."""
    return {**HT(s), "sub": True}


def loose(c, path, top=None, clause="verbatim"):
    top = top or ("tag" if len(c) == 1 and c[0]["k"] == "tag" else "list")
    return {"in": {"c": c, "path": path, "top": top}, "q": "loose", "clause": clause, "c": c,
            "out": render_obs(top, c, path=path)}


def doc_line(c, how):
    """The same content through HTMLDocument.render / save_html / text document."""
    pre = "<!DOCTYPE html>\n"
    tree = [TAG("html", True, TAG("head", True, TAG("meta", False,
            a=[{"n": cps("charset"), "v": cps("utf-8"), "h": False}])), TAG("body", True, *c))]

    def go():
        kids = build_seq(c)
        if how == "doc":
            s = H.HTMLDocument(*kids).render()["html"]
        elif how == "append":
            d = H.HTMLDocument()
            d.append(*kids)
            s = d.render(lib_prefix=None)["html"]
        else:
            f = os.path.join(scratch(), "x.html")
            if how == "save":
                H.HTMLDocument(*kids).save_html(f)
            else:
                TagList(*kids).save_html(f)
            with open(f, newline="") as fh:
                s = fh.read()
        if not s.startswith(pre):
            return "missing doctype"
        return s[len(pre):]
    return {"in": {"c": c, "how": how}, "q": "loose", "clause": "verbatim-in-document",
            "c": tree, "out": outrec(go)}


def check(ctx):
    r = ctx.rng
    lines = []
    # ---- concatenation --------------------------------------------------
    kinds = ["str", "html", "obj"]
    exprs = []
    nmax = ctx.pick(4, 5)
    for n in range(1, nmax + 1):
        for ks in itertools.product(kinds, repeat=n):
            for _ in range(ctx.pick(1, 2)):
                atoms = [A_(k, r.choice(ATOMS), **({"sub": True} if k != "obj" and r.random() < .1 else {}))
                         for k in ks]
                exprs += [e for e in trees_over(atoms) if evaluable(e) and
                          (has_html(e) or not has_obj(e))]
    # every pair and triple of spellings
    for a, b in itertools.product(ATOMS, ATOMS):
        for k1, k2 in (("html", "str"), ("str", "html"), ("html", "html"), ("html", "obj"),
                       ("obj", "html")):
            exprs.append(cat(A_(k1, a), A_(k2, b)))
    for num in ("1", "2.5", "-3"):
        exprs += [cat(A_("html", "<i>"), A_("obj", num, num=True)),
                  cat(A_("obj", num, num=True), A_("html", "<i>"))]
    for _ in range(ctx.pick(1200, 10000)):     # realistic operands
        atoms = [A_("html", r.choice(SNIPS)) if k == "html" else A_(k, r.choice(TEXTS + SNIPS) + r.choice(["", "", "", "=", "\"", "'", " ", "\n", ">"]))
                 for k in r.choices(["html", "str"], k=r.randint(2, 4))]
        while len(atoms) > 1:
            i = r.randrange(len(atoms) - 1)
            atoms[i:i + 2] = [cat(atoms[i], atoms[i + 1], aug=r.random() < 0.3)]
        exprs.append(atoms[0])
    for _ in range(ctx.pick(500, 5000)):      # long chains, random grouping, augmented
        atoms = [A_(r.choice(kinds), r.choice(ATOMS)) for _ in range(r.randint(3, 9))]
        while len(atoms) > 1:
            i = r.randrange(len(atoms) - 1)
            atoms[i:i + 2] = [cat(atoms[i], atoms[i + 1], aug=r.random() < 0.3)]
        if evaluable(atoms[0]):
            exprs.append(atoms[0])
    for e in exprs:
        lines.append(cat_line(e))
        if e["t"] == "cat" and not has_obj(e) or has_html(e):
            leaf = {"k": "expr", "e": e}
            w = r.randrange(4)
            if w == 0:
                c = [TAG(r.choice(PLAIN), r.random() < .5, leaf, via=r.choice(VIAS))]
            elif w == 1:
                c = [TAG(r.choice(PLAIN), r.random() < .5, T("&"), leaf, TAG("b", False))]
            elif w == 2:
                c = [leaf]
            else:
                c = [TAG(r.choice(["script", "style"]), True, leaf)]
            lines.append(loose(c, r.choice(["ghs", "str", "render"]), clause="concatenation-rendering"))
            # rendering the operands as separate adjacent children gives the same
            if has_html(e):
                kids = [(HT if o["t"] == "html" else T)(uncps(o["s"])) for o in operands(e)]
                lines.append(loose([TAG("span", False, *kids)], "ghs"))
    # ---- verbatim content at all positions and paths ----------------------
    for s in RAWS:
        for mk in (HT, RP, HTS):
            leaf = mk(s)
            for c in ([leaf], [TAG("div", True, leaf)], [TAG("span", False, leaf)],
                      [TAG("div", True, T("x"), leaf, T("y"))], [TAG("p", True, leaf, leaf)],
                      [TAG("div", True, TAG("b", False), leaf)], [TAG("div", True, dict(META), leaf)],
                      [TAG("textarea", True, leaf)], [TAG("br", False, leaf)],
                      [TAG("pre", False, leaf)], [TAG("title", True, leaf)],
                      [TAG("div", True, {"k": "tgf", "lst": True, "r": False, "s": [], "c": [leaf, T("<")]})],
                      [TAG("div", True, {"k": "tgf", "lst": False, "r": False, "s": [], "c": [leaf]})],
                      [leaf, TAG("div", True), leaf], [TAG("script", True, leaf)],
                      [TAG("style", True, leaf, leaf)]):
                paths = ["str", "render", "repr", "rh"]
                if not any("tgf" in str(x) for x in c):
                    paths.append("ghs")
                for path in paths if mk is HT else [r.choice(paths)]:   # (the others share most of it)
                    lines.append(loose(c, path))
            for how in ("doc", "append", "save", "savelist"):
                lines.append(doc_line([TAG("div", True, leaf)], how))
                lines.append(doc_line([leaf, T("<")], how))
        for nm in ("script", "style"):
            for c in ([TAG(nm, True, T(s))], [TAG(nm, False, T(s))], [TAG(nm, True, T(s), T(s))],
                      [TAG(nm, True, T(s), HT(s))], [TAG(nm, True, dict(META), T(s))],
                      [TAG(nm, True, T(s), dict(META), T("&"))], [TAG(nm, True, RP(s), T(s))],
                      [TAG("div", True, TAG(nm, True, T(s)), T("<"))],
                      [TAG("span", False, TAG(nm, False, T(s), T(s)))],
                      [TAG(nm, True, {"k": "list", "c": [T(s), {"k": "none"}]}, via="append")],
                      [TAG(nm, True, {"k": "tgf", "lst": True, "r": False, "s": [], "c": [T(s)]})]):
                lines.append(loose(c, "render" if "tgf" in str(c) else r.choice(["ghs", "str", "render"]),
                                   clause="script-style-verbatim"))
            lines.append(doc_line([TAG(nm, True, T(s))], r.choice(["doc", "save"])))
        # attribute values
        for sup in ([ctor([P("id", V("html", s))])], [ctor([P("id", V("html", s))], kw=True)],
                    [ctor(), {"op": "set", "n": cps("id"), "v": V("html", s)}],
                    [ctor(), {"op": "add_class", "v": V("html", s), "prepend": False}],
                    [ctor([P("class", V("html", "k"))]), {"op": "add_class", "v": V("html", s), "prepend": True}],
                    [ctor(), {"op": "add_style", "v": V("html", s + ";"), "prepend": True}],
                    [ctor([P("id", V("html", s))], [P("id", V("html", s))])],
                    [ctor([P("id", V("html", s))], [P("id", V("str", "q"))])]):
            for path in ("ghs", "str", "tagify", "copy"):
                lines.append(attr_line(r.choice(PLAIN + VOID), sup, path))
    # ---- random trees -------------------------------------------------------
    for s in SNIPS:
        for mk in (HT, RP, HTS):
            for c in ([mk(s)], [TAG(r.choice(PLAIN), r.random() < 0.5, mk(s))], [TAG("div", True, T("x"), mk(s), T("y"), TAG("p", True))],
                      [TAG("b", False, T("<"), mk(s)), mk(s)]):
                lines.append(loose(c, r.choice(["str", "render", "repr", "rh", "ghs"])))
            lines.append(doc_line([TAG("div", True, mk(s))], r.choice(["doc", "append", "save", "savelist"])))
        for nm in ("script", "style"):
            lines.append(loose([TAG(nm, r.random() < 0.5, T(s))], r.choice(["str", "render", "ghs"]), clause="script-style-verbatim"))
            lines.append(loose([TAG(nm, r.random() < 0.5, T(s), T("<")), T("a")], r.choice(["str", "render", "ghs"]), clause="script-style-verbatim"))
    g = TreeGen(r, max_nodes=20, text="ab<&>;\"", html_text="ab<&>;\"'\n ", attr_text="ab<&>\"", snips=SNIPS, texts=TEXTS,
                leaves={"text": 4, "html": 4, "repr": 4, "meta": 1, "num": 1}, lists=True,
                names=PLAIN * 2 + VOID + ["script", "style", "pre", "textarea"])
    for _ in range(ctx.pick(2500, 30000)):
        c = [g.one()] if r.random() < 0.5 else g.forest()
        if r.random() < 0.2:
            lines.append(loose(wrap_leaves(r, c, r.choice([0.2, 0.6]), ("text", "html", "repr")),
                               r.choice(["str", "render", "rh"])))
        else:
            lines.append(loose(c, r.choice(["ghs", "str", "render", "rh"])))
        if r.random() < 0.1:
            c = [n for n in c if n["k"] not in ("tag", "meta")] + [TAG("div", True, *c)]
            lines.append(doc_line(c, r.choice(["doc", "append", "save", "savelist"])))
    for c in pages(r, ctx.pick(500, 6000), valid=False):
        lines.append(loose(c, r.choice(["ghs", "str", "render", "rh"])))
        if r.random() < 0.15 and all(n["k"] == "tag" for n in c):
            lines.append(doc_line(c, r.choice(["doc", "append", "save", "savelist"])))
    # script and style with attributes and neighbours
    for nm in ("script", "style"):
        for a in (["type"], ["src"], ["id", "class"], ["media"], ["type", "id", "nonce"], ["lang"], ["data-x"], ["href", "title", "async"]):
            for s in ("a < b & c > d", "\"'&amp;'\"", "<!-- x -->", "</p>"):
                at = [A(n, r.choice(["", "module", "text/template", "application/json", "x", "text/css"])) for n in a]
                kids = r.choice([[T(s)], [T(s)], [T(s), T(s)], [T(s), HT(s)], [HT(s)], [dict(META), T(s)]])
                lines.append(loose([TAG(nm, r.random() < 0.5, *kids, a=at)], r.choice(["ghs", "str", "render", "rh"]),
                                   clause="script-style-verbatim"))
    # strings met before in another role
    for s in used_before(r, ctx.pick(500, 5000)):
        k = r.random()
        if k < 0.3:
            lines.append(loose([TAG("div", r.random() < 0.5, r.choice([HT, RP])(s), T("x"))], "str"))
        elif k < 0.55:
            kids = r.choice([[T(s)], [T(s), T("&")], [HT(s)]])
            lines.append(loose([TAG(r.choice(["script", "style"]), True, *kids)], "str", clause="script-style-verbatim"))
        elif k < 0.75:
            lines.append(attr_line("div", [ctor([P("id", V("html", s))])], "str"))
        else:
            lines.append(cat_line(cat(A_("html", "&"), A_("str", s)) if r.random() < 0.5 else cat(A_("str", s), A_("html", s))))
    # long markup, deep and wide trees
    for h in ("<b>&", "\"'\n", "&amp;"):
        for s in long_strings(h):
            for leaf in (HT(s), RP(s)):
                lines.append(loose([TAG("div", r.random() < 0.5, T("x"), leaf, leaf)], "str"))
            lines.append(loose([TAG("script", True, T(s), T("&"))], "str", clause="script-style-verbatim"))
            lines.append(attr_line("div", [ctor([P("id", V("html", s))])], "str"))
            lines.append(cat_line(cat(A_("html", s), A_("str", s))))
            lines.append(cat_line(cat(A_("str", s), A_("html", s))))

    def leaves():
        return [r.choice([HT, RP])(r.choice(RAWS)), *([TAG(r.choice(["script", "style"]), r.random() < 0.5,
                T(r.choice(RAWS)), T("<"))] if r.random() < 0.3 else [])]
    for t in extreme_trees(r, leaves, ctx.quick):
        lines.append(loose([t], r.choice(["ghs", "str", "render"])))
    ctx.judge("JudgeText", "TextVerdict", lines)
    ctx.assumptions += ["plain operands that are not strings are only added to HTML()",
                        "layout whitespace between pieces is C05/C06"]
