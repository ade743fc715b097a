"""C15: attribute names and values are normalised and merged in argument order."""
from ..catalog import ATTRS, ELEMENTS
from ..core import cps
from ..gen import HT, META, RP, TAG, T
from .attrs import record
from .c03 import OpGen, P, V, ctor

NAMES = ["class_", "class", "for_", "data_foo", "data-foo", "data_foo_", "x__", "_x", "a_b-c_d",
         "id", "style", "aria_label", "aria-label", "a__b", "x_y_z_", "onClick", "viewBox", "é_", "_", "__", "-", "_-", "data_", "class__"]


def check(ctx):
    r = ctx.rng
    hists = []
    for a, o, rich in ctx.pick([(2, 1, True), (3, 0, False)], [(3, 1, False), (2, 2, False), (3, 0, True)]):
        hists += ctx.model("MCAttrs", f"MCAttrs args<={a} ops<={o} rich={rich}",
                           consts={"MaxArgs": a, "MaxOps": o, "Rich": rich, "EmitOn": True},
                           invariants=["Unique", "Normal", "FirstAppearance", "LastReplaces", "Emit"])
    if len(hists) > ctx.pick(12000, 150000):
        hists = r.sample(hists, ctx.pick(12000, 150000))
    lines = []
    for h in hists:
        # the same model history through several constructor shapes
        h = [dict(o) for o in h]
        if h[0]["args"] and r.random() < 0.5:
            h[0]["kw"] = True
        if r.random() < 0.2:
            h[0]["op"] = "attrdict"
        lines.append(record(h))
    g = OpGen(r, "ab <&\"", names=NAMES, html_p=0.15)

    class G(OpGen):
        def arg(self, names=None, n=None):
            r = self.r
            ns = list(dict.fromkeys(r.choice(self.names) for _ in range(n or r.randint(1, 5))))
            return [P(nm, self.value()) for nm in ns]

    g = G(r, "ab <&\"", names=NAMES, html_p=0.15)
    kidpool = [T("t"), HT("<b>"), {"k": "none"}, {"k": "num", "s": cps("3")}, RP("r"), dict(META),
               TAG("b", False, T("q")), {"k": "list", "c": [T("l"), {"k": "none"}]},
               {"k": "list", "t": "tuple", "c": []}, {"k": "list", "t": "taglist", "c": [T("m")]}]
    for _ in range(ctx.pick(4000, 50000)):
        h = [g.ctor()]
        h[0]["as_attrdict"] = r.random() < 0.15 and not h[0]["kw"]
        h[0]["kids"] = [r.choice(kidpool) for _ in range(r.randint(0, 2))]
        if r.random() < 0.15:
            h[0] = {**g.ctor(), "op": "attrdict"}
        for _ in range(r.randint(0, 6)):
            k = r.random()
            if k < 0.25:
                c = g.ctor()
                h.append({"op": "consolidate", "args": c["args"], "kw": c["kw"],
                          "kids": [r.choice(kidpool) for _ in range(r.randint(0, 4))]})
            else:
                o = g.op()
                if o["op"] in ("add_class", "add_style"):
                    o = {"op": "set", "n": cps(r.choice(NAMES)), "v": g.value()}
                h.append(o)
        lines.append(record(h))
    # every usual attribute name in several spellings
    for a in ATTRS:
        u = a.replace("-", "_")
        sp = list(dict.fromkeys([a, u, u + "_", a + "_", u.upper(), u.title(), u + "_x_", a.capitalize(),
                                 "_".join([u.split("_")[0]] + [p.title() for p in u.split("_")[1:]]) + "_fooBar",
                                 *(["_" + u] if u != "name" else [])]))       # (_name is a parameter of Tag)
        for n in sp:
            v, w = g.value(), g.value()
            lines.append(record([ctor([P(n, v)], [P(r.choice(sp), w), P("zz-i", V("str", "i"))], kw=r.random() < 0.5),
                                 {"op": "set", "n": cps(r.choice(sp)), "v": g.value()},
                                 {"op": "update", "args": [[P(n, w)], [P(r.choice(sp), v)]], "kw": r.random() < 0.5}],
                                r.choice(ELEMENTS)))
    # many values for one name, many names
    for n in (3, 5, 9, 17, 33, 64):
        for _ in range(ctx.pick(3, 10)):
            lines.append(record([ctor(*[[P(r.choice(["class", "class_", "x"]), V(r.choice(["str", "str", "html", "none"]), f"v{i}"))]
                                        for i in range(n)], kw=r.random() < 0.5)]))
            ns = [f"n{i}" for i in range(n)] + ["z", "a"]
            r.shuffle(ns)
            lines.append(record([ctor([P(x, V("str", "1")) for x in ns], [P(x, V("str", "2")) for x in reversed(ns)]),
                                 {"op": "set", "n": cps(ns[n // 2]), "v": V("str", "3")}]))
    # numbers
    for x in (0, 1, -1, 2.5, 0.0, 1.0, -0.0, 2.0, 10.0, 1e16, 1e-5, 0.1, float("nan"), 255, 1e22, float("inf"), 10 ** 20):
        for nm in ("a", "a_"):
            v = V("num", str(x))
            lines.append(record([ctor([P(nm, v)], [P("a", V("str", "z"))], [P("a", v)], kw=True),
                                 {"op": "set", "n": cps("b"), "v": v}]))
    ctx.judge_traces("JudgeAttrs", "AStart", "AStep", lines)
    ctx.assumptions += ["assigning None/False by item assignment leaves an existing value (as the code does)"]
