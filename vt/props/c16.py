"""C16: class/style helpers and css() act as token-set and declaration algebra."""
from ..core import cps
from .attrs import record
from .c03 import P, V, ctor

TOKS = ["a", "b", "ab", "a-b", "A", "x&y", "a&amp;b", "<i>", "\"q\"", "btn", "btn-primary", "é",
        "b;", "'", "0", "x&amp;y", "aa", "md:w-1/2", "hover:bg-[#fff]", "w-[calc(100%-1rem)]", "a.b", "a_b", "a:b", "B", "Btn",
        "btn--x", "is-" + "long" * 20, "-", "--", "_", "1", "a1", "*", "[a]", "(", "\\", "$", "^a", "a|b", "\u65e5", "\U0001f600",
        "None", "True", "class", "html", "-a", "a-", "&", "&lt;", "ab-", "\u0130", "\u00df", "ss"]
FEW = ["a", "b", "ab", "a-b", "A", "x&y", "btn", "btn-primary"]
INITS = ["", "a", "a b", " a  b ", "b a b", "ab a-b", "\ta\n", "x&y a", "a a a", " "]


def tokv(r, html=0.1):
    if r.random() < 0.6:
        return V("html" if r.random() < html else "str", r.choice(FEW))
    return V("html" if r.random() < html else "str", r.choice(TOKS))


def hist(r):
    h = []
    k = r.random()
    if k < 0.25:
        h.append(ctor([P("id", V("str", "i"))]))
    elif k < 0.75:
        h.append(ctor([P("id", V("str", "i")), P("class", V("str", r.choice(INITS)))],
                      [P("style", V("str", "a:b;"))]))
    else:
        h.append(ctor([P("class", V("html", r.choice(["a", "a b", "x&amp;y a", "b a b", "ab"])))],
                      [P("class_", V("str", r.choice(["a", "b", "x&y", "<i> b"])))], kw=True))
    for _ in range(r.randint(1, 8)):
        k = r.random()
        if k < 0.3:
            h.append({"op": "add_class", "v": tokv(r), "prepend": r.random() < 0.4})
        elif k < 0.55:
            h.append({"op": "remove_class", "v": tokv(r, 0)})
        elif k < 0.8:
            h.append({"op": "has_class", "v": tokv(r, 0)})
        elif k < 0.93:
            s = r.choice(["color:red;", "a:b;", "x:'q';", "a:b", "", ";", "a:b; ", "a:b;\n", "a;b",
                          "content:\"<&>\";", "b:c;d:e;"])
            h.append({"op": "add_style", "v": V("html" if r.random() < 0.2 else "str", s),
                      "prepend": r.random() < 0.5})
        elif k < 0.97:
            h.append({"op": "update", "kw": r.random() < 0.5,
                      "args": [[P("class_", V("str", r.choice(INITS)))]]})
        else:
            h.append({"op": "set", "n": cps("class"), "v": V(r.choice(["str", "html"]), "a b x&amp;y")})
    return h


CSSN = ["color", "font_size", "fontSize", "backgroundColor", "WebkitBox", "webkit_box_flex", "_x",
        "a", "aB_c", "ABC", "z_index", "margin_", "b__c", "x1Y2", "__v"]


def css_op(r):
    ns = list(dict.fromkeys(r.choice(CSSN) for _ in range(r.randint(0, 5))))
    vals = [V("none"), V("str", "12px"), V("str", ""), V("str", "a b"), V("num", "0"), V("num", "1.5"),
            V("str", "url(x;y)"), V("str", "Red"), V("str", "\"Q\""), V("str", "A_b"), V("str", "red;"), V("str", ";"), V("str", " x "), V("str", "a:b"), V("str", "\n"),
            V("num", "-0.5"), V("num", "0.0"), V("num", "1"), V("num", "1.0"), V("num", "100"), V("num", "True"), V("num", "False"),
            V("str", "red !important"), V("str", "x !important;"), V("str", "None"), V("str", "a\nb"), V("str", "{x}"), V("str", "%s")]
    return {"op": "css", "args": [P(n, r.choice(vals)) for n in ns],
            "collapse": cps(r.choice(["", "", "", "\n", " ", "; "]))}


def check(ctx):
    r = ctx.rng
    cases = ctx.model("MCClass", "MCClass", consts={"MaxOps": ctx.pick(2, 3), "EmitOn": True},
                      invariants=["AddMakesMember", "RemoveLeavesNone", "Emit"], props=["TokenAlgebra"])
    if len(cases) > ctx.pick(8000, 40000):
        cases = r.sample(cases, ctx.pick(8000, 40000))
    lines = [record(h) for h in cases]
    for _ in range(ctx.pick(6000, 60000)):
        lines.append(record(hist(r), r.choice(["div", "br", "script", "svg", "body", "html", "a", "input", "table", "option"])))
    # long class lists
    for n in (10, 40, 150):
        for _ in range(ctx.pick(4, 20)):
            toks = [r.choice(TOKS) if r.random() < 0.3 else f"t{i}" for i in range(n)]
            t = V("str", r.choice(toks))
            lines.append(record([ctor([P("class", V("str", " ".join(toks)))]), {"op": "has_class", "v": t},
                                 {"op": "remove_class", "v": t}, {"op": "has_class", "v": t},
                                 {"op": "add_class", "v": t, "prepend": r.random() < 0.5}, {"op": "has_class", "v": t},
                                 {"op": "remove_class", "v": tokv(r, 0)}, {"op": "has_class", "v": tokv(r, 0)}]))
    for _ in range(ctx.pick(1500, 10000)):
        lines.append(record([ctor()] + [css_op(r) for _ in range(3)]))
    ctx.judge_traces("JudgeAttrs", "AStart", "CStep", lines)
    ctx.assumptions += ["tokens of an HTML() class value that contain character references have two "
                        "readings and are left unconstrained", "ASCII whitespace separates tokens"]
