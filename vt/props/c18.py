"""C18: output is deterministic across processes and independent of history."""
import hashlib
import json
import os
import re
import subprocess
import sys
import unicodedata
from copy import deepcopy

from ..build import H, HTML, Tag, TagList, build_seq
from ..core import VERIF, Machinery, cps, guarded, run_tlc, scratch, uncps
from ..deps import DepGen, V
from ..detlib import METHODS
from ..disturb import BY_NAME
from ..gen import HT, META, RP, TAG, T, TreeGen
from .c03 import OpGen, P
from .c11 import DocGen, kwargs, prefix_of
from .c16 import css_op, hist as class_hist

SEEDS = ["0", "1", "2", "3", "42", "12345", "4294967295", "random"]


# ---------------------------------------------------------------- battery
def families(r, n):
    """Groups of constructions that a careless cache or set would mix up."""
    fam = []
    # values that compare equal, or print alike
    vals = [1, True, ["py", "1.0"], "1", "True", ["html", "1"], 0, False, ["py", "-0.0"], ["py", "0.0"], "0", "1.0"]
    for _ in range(n):
        vs = r.sample(vals, 4)
        name = r.choice(["div", "span"])
        fam.append([{"k": "vals", "n": name, "kids": [v], "attrs": [["a", v], ["b", w]]}
                    for v in vs for w in (r.choice(vs),)])
    # names that a careless table would mix up: letter case, underscores, spaces
    for _ in range(n):
        names = r.sample(["fooBar_", "foobar_", "FOOBAR_", "foo_bar", "foo_Bar", "foo-bar", "_foo_bar", "foo_bar__", "Foo_bar_",
                          "class", "Class", "CLASS_", "class_", "data_x_", "data_X_", "data-x"], 5)
        tag = r.choice(["div", "linearGradient"])
        fam.append([{"k": "vals", "n": t, "kids": [k], "attrs": [[k, r.choice(["v", "w"])]]}
                    for k in names for t in (r.choice([tag, tag.lower(), tag.upper()]),)])
    # text and HTML that compare equal
    for s in r.sample(["<b>", "a & b", "\"q\"", "x\ny", "&amp;", "é<"], min(n, 6)):
        fam.append([{"k": "vals", "n": "p", "kids": [s], "attrs": [["t", s]]},
                    {"k": "vals", "n": "p", "kids": [["html", s]], "attrs": [["t", ["html", s]]]},
                    {"k": "vals", "n": "p", "kids": [s, ["html", s]], "attrs": [["t", s]]},
                    {"k": "hc", "c": [T(s)]}, {"k": "hc", "c": [HT(s)]}])
    # documents over a common pool of dependencies
    for _ in range(n * 2):
        g = DocGen(r, max_nodes=r.choice([3, 6, 10]), tgf=0.2)
        pool = [g.d.node() if r.random() < 0.75 else g.d.headcontent([HT("<x%d>" % i)]) for i in range(5)]
        fs = []
        for _ in range(4):
            c = g.g.forest()
            for d in r.choices(pool, k=r.randint(2, 7)):
                x = c
                while True:
                    sub = [y for y in x if y["k"] in ("tag", "list")]
                    if not sub or r.random() < 0.4:
                        break
                    x = r.choice(sub)["c"]
                x.insert(r.randint(0, len(x)), deepcopy(d))
            if r.random() < 0.6:
                fs.append({"k": "doc", "c": c, "kw": kwargs(r), "prefix": prefix_of(r), "iv": r.random() < 0.7})
            else:
                fs.append({"k": "tags", "c": c})
        if len(fs) > 1:
            fs.append({**fs[0], "prefix": "other", "iv": False} if fs[0]["k"] == "doc" else {**fs[0]})
        fam.append(fs)
    # the same dependency and close variants
    for _ in range(n):
        g = DepGen(r, nested=0.2)
        d = g.dep()
        fs = [{"k": "dep", "d": d}]
        for k in range(3):
            e = deepcopy(d)
            w = r.choice(["v", "script", "head", "src", "meta"])
            if w == "v":
                e["v"] = cps(r.choice(["1", "1.0", "1.0.0", "2"]))
            elif w == "head":
                e["head"] = [HT("<h>")]
                e.pop("headstr", None)
            elif w == "src":
                e["src"] = {"t": "sub", "s": cps(r.choice(["some/dir", "some"])), "pkg": r.random() < 0.5}
            else:
                e[w] = g.dep()[w]
            fs.append({"k": "dep", "d": e})
        fs.append({"k": "tags", "c": [{"k": "dep", "d": d}, {"k": "dep", "d": fs[1]["d"]}, T("t")]})
        fam.append(fs)
    # attribute and class histories
    for _ in range(n * 2):
        fs = [{"k": "attrs", "n": r.choice(["div", "p"]), "h": [o for o in class_hist(r) if o["op"] != "css"]}
              for _ in range(2)]
        og = OpGen(r, "ab <&\"", html_p=0.2)
        fs.append({"k": "attrs", "n": "div", "h": [og.ctor()] + [og.op() for _ in range(r.randint(0, 4))]})
        fam.append(fs)
        fam.append([{"k": "css", **{k: v for k, v in css_op(r).items() if k != "op"}} for _ in range(2)])
    # text documents
    for _ in range(n):
        g = DepGen(r, nested=0)
        deps = [g.dep() for _ in range(4)]
        fs = []
        for _ in range(3):
            emb = r.choices(deps, k=r.randint(0, 5))
            fs.append({"k": "text", "deps": r.sample(deps, r.randint(0, 3)), "emb": emb, "pre": cps("<html><head>"),
                       "pat": cps("<!--deps-->"), "mid": cps("</head><body>"), "post": cps("t</body></html>"),
                       "prefix": prefix_of(r), "iv": r.random() < 0.7})
        fam.append(fs)
    # plain trees (equal trees that differ in whitespace or spelling of children)
    for _ in range(n):
        t = TreeGen(r, max_nodes=r.choice([4, 10]), lists=True, text="ab<&> \n", attr_text="a\"&<").one()
        u = deepcopy(t)
        u["ws"] = not u["ws"]
        w = deepcopy(t)
        w["c"] = list(reversed(w["c"]))
        fam.append([{"k": "tag", "t": t}, {"k": "tag", "t": u}, {"k": "tag", "t": w}])
    # JSX
    for _ in range(max(1, n // 2)):
        g = DepGen(r, nested=0, heads=False)

        def jt(depth):
            kids = [r.choice(["s", "t<"]) if depth > 1 or r.random() < 0.4 else jt(depth + 1)
                    for _ in range(r.randint(0, 3))] + [{"dep": g.dep()} for _ in range(r.randint(0, 2))]
            attrs = {k: r.choice(["v", 1, True, None, [1, "x"], {"q": 2}]) for k in r.sample(["a", "b_c", "d"], 2)}
            if depth and r.random() < 0.4:
                return {"html": "div", "c": kids, "a": {"id": "x"}}
            return {"jsx": r.choice(["Foo", "Bar.Baz"]), "c": kids, "a": attrs}
        fam.append([{"k": "jsx", "t": jt(0)} for _ in range(2)])
    # operations that fail, between the others
    for fs in fam:
        if r.random() < 0.7:
            own = [x["c"] for x in fs if x["k"] in ("tags", "doc", "hc")]
            c = r.choice(own) if own and r.random() < 0.7 else \
                TreeGen(r, max_nodes=6, lists=True, text="ab<&\n", attr_text="a\"&<").forest()
            fs.append({"k": "boom", "c": deepcopy(c), "way": r.choice(sorted(BY_NAME))})
    return fam


# ---------------------------------------------------------------- processes
def run_processes(battery, jobs_of, r):
    """jobs_of: one list of jobs per process.  Returns the results per process."""
    d = scratch()
    bp = os.path.join(d, "battery.json")
    with open(bp, "w") as f:
        json.dump(battery, f)
    procs = []
    for i, jobs in enumerate(jobs_of):
        jp, op = os.path.join(d, f"jobs{i}.json"), os.path.join(d, f"out{i}.json")
        with open(jp, "w") as f:
            json.dump(jobs, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(PYTHONHASHSEED=SEEDS[i % len(SEEDS)], PYTHONDONTWRITEBYTECODE="1")
        flags = [["-X", "utf8"], [], ["-O"], ["-X", "utf8", "-s"]][i % 4]
        env["LC_ALL"] = ["C.UTF-8", "C", "POSIX"][i % 3]
        env["TZ"] = ["UTC", "Asia/Tokyo"][i % 2]
        args = [sys.executable, *flags, "-m", "vt.det_worker", bp, jp, op]
        procs.append((subprocess.Popen(args, cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), op))
    out = []
    for p, op in procs:
        try:
            text, _ = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            p.kill()
            raise Machinery("det_worker timed out")
        if p.returncode != 0:
            raise Machinery("det_worker failed: " + text.decode("utf-8", "replace")[-1500:])
        with open(op) as f:
            out.append([json.loads(x) for x in f])
    return out


# ---------------------------------------------------------------- head contents
def sha(s):
    return hashlib.sha256(s.encode("utf-8", "surrogatepass")).hexdigest()[:24]


def payloads(r, n):
    """Abstract payloads, many of them close to each other or equal when rendered."""
    base = ["", "a", "b", "ab", "a b", "a  b", " a", "a ", "A", "a\n", "\na", "a\tb", "&", "&amp;", "&amp;amp;", "<b>", "<b></b>",
            "&lt;b&gt;", "é", "e\u0301", "ﬁ", "fi", "0", "1", "True", "null", "a,b", "a;b", "\"", "'", "<!-- -->", "ß", "ss", "I", "ı"]
    pool = []
    for s in base:
        pool += [[T(s)], [HT(s)], [RP(s)]]
    pool += [[], [{"k": "none"}], [{"k": "list", "c": []}], [{"k": "num", "s": cps("1")}], [dict(META)],
             [{"k": "list", "t": "taglist", "c": [T("a"), T("b")]}]]
    for nm in ("title", "style", "script", "meta", "link", "base", "noscript"):
        for ws in (True, False):
            pool += [[TAG(nm, ws)], [TAG(nm, ws, T("x"))], [TAG(nm, ws, HT("x"))], [TAG(nm, ws, T("x"), T("y"))]]
    from ..gen import A
    for a in ([("a", "1"), ("b", "2")], [("b", "2"), ("a", "1")], [("a", "1")], [("A", "1")], [("a", "1 ")], [("a", "")]):
        pool.append([TAG("meta", True, a=[A(x, y) for x, y in a])])
    out = list(pool)
    for _ in range(n):
        out.append([r.choice(r.choice(pool) or [T("z")]) for _ in range(r.choice([1, 2, 2, 3, 4]))])
    for _ in range(n // 4):
        g = TreeGen(r, max_nodes=6, lists=True, text="ab <&\n", attr_text="ab\"")
        out.append(g.forest())
    for _ in range(n // 4):
        out.append([HT("".join(r.choice("ab <>/=\"'\n\t&;A") for _ in range(r.randint(1, 300))))])
    # long contents that differ in one place
    for size in (70, 130, 260, 520, 1030, 4100, 66000, 140000):
        x = "<i>" + "ab" * (size // 2) + "</i>"
        for at in (1, size // 3, size // 2, size - 2):
            out.append([HT(x[:at] + "Z" + x[at + 1:])])
        out.append([HT(x)])
        out.append([HT(x + "\n")])
    return out


def name_of(nodes):
    """(content digest, name) of one head_content call."""
    def go():
        content = TagList(*build_seq(nodes)).get_html_string()
        d = H.head_content(*build_seq(nodes))
        return sha(str(content)), d.name
    return guarded(go)


def name_lines(pairs, q):
    """Group the pairs so that any clash falls into one group."""
    lines = []
    for key, w in ((0, 2), (1, 3)):
        groups = {}
        for p in sorted(pairs):
            k = p[key][:w] if key == 0 else p[key][-w:]
            groups.setdefault(k, []).append(list(p))
        for g in groups.values():
            # without a repeated side there is nothing to clash
            if len({x[0] for x in g}) == len(g) == len({x[1] for x in g}) and len(lines) > 200:
                continue
            lines.append({"in": {"pairs": g[:20]}, "q": q, "ev": [{"op": "names", "pairs": g}]})
    return lines


def doc_lines(r, n):
    lines = []
    for _ in range(n):
        # each content carries a token; different contents may carry the same token
        k = r.randint(1, 5)
        contents = []
        for i in range(k):
            tok = "tok%dz" % r.randint(0, 3)
            v = r.choice(['<meta name="%s">', '<meta name="%s"> ', '<META name="%s">', '<meta  name="%s">', '<i>%s</i>',
                          "%s", "<!--%s-->"]) % tok
            shape = r.random()
            nodes = [HT(v)] if shape < 0.6 else [TAG("title", True, T(v))] if shape < 0.8 else [T(v), HT(v[:0])]
            contents.append((tok, nodes))
        seq = [r.choice(contents) for _ in range(r.randint(1, 8))]

        def go():
            reals, info = [], []
            for tok, nodes in seq:
                d = H.head_content(*build_seq(nodes))
                reals.append(d)
                info.append((sha(str(TagList(*build_seq(nodes)).get_html_string())), d.name, tok))
            tree = []
            stack = [tree]
            for d in reals:
                m = r.random()
                if m < 0.3:
                    new = []
                    stack[-1].append(("div", new))
                    stack.append(new)
                elif m < 0.5 and len(stack) > 1:
                    stack.pop()
                stack[-1].append(d)
                if r.random() < 0.3:
                    stack[-1].append("text")
            res = H.HTMLDocument(*real(tree)).render()
            head = res["html"].split("<body")[0]
            return {"contents": [i[0] for i in info], "names": [i[1] for i in info], "tokens": [i[2] for i in info],
                    "deps": [d.name for d in res["dependencies"]], "found": re.findall(r"tok\dz", head)}
        ok, v = guarded(go)
        e = {"op": "doc", "ok": ok}
        e.update(v if ok else {"contents": [], "names": [], "tokens": [], "deps": [], "found": []})
        lines.append({"in": {"seq": [s[0] for s in seq], "doc": e if ok else str(v)}, "q": "doc", "ev": [e]})
    return lines


def real(tree):
    return [Tag(x[0], *real(x[1])) if isinstance(x, tuple) else x for x in tree]


# ---------------------------------------------------------------- check
def check(ctx):
    r = ctx.rng
    good = dict(Variant="ordered", EmitOn=False)
    ctx.model("MCDet", "MCDet two processes", consts={**good, "Procs": 2, "MaxOps": ctx.pick(5, 6)},
              invariants=["Deterministic", "NamesAreContent"])
    hists = ctx.model("MCDet", "MCDet histories", consts={**good, "Procs": 1, "MaxOps": ctx.pick(5, 6), "EmitOn": True},
                      invariants=["Deterministic", "NamesAreContent", "Emit"])
    # broken designs must be caught by the specification itself
    for variant in ("set", "counter", "cache", "short"):
        t = run_tlc("MCDet", "Init", "Next", consts={"Variant": variant, "EmitOn": False, "Procs": 2, "MaxOps": 6},
                    invariants=["Deterministic", "NamesAreContent"])
        if not t.error or "is violated" not in t.error:
            raise Machinery("MCDet accepts variant " + variant)
        ctx.models.append({"spec": "MCDet variant " + variant, "rejected": True, "secs": round(t.secs, 1)})
    fam = families(r, ctx.pick(12, 60))
    battery, groups = [], []
    for f in fam:
        groups.append(list(range(len(battery), len(battery) + len(f))))
        battery += f

    nproc = ctx.pick(8, 16)
    jobs_of = [[] for _ in range(nproc)]
    jid = 0

    def job(p, hist, cmap):
        nonlocal jid
        jid += 1
        h = [{"op": e["op"], "c": e["c"]} for e in hist]
        for e in h:
            if e["op"] == "render":
                n = r.choice([1, 1, 2, 4])
                e["m"] = [r.randint(0, 60) for _ in range(n)]
        jobs_of[p].append({"id": jid, "hist": h, "map": cmap, "gc": r.random() < 0.3})
    # a pristine process for each construction: every method first thing, in order
    for c in range(len(battery)):
        ms = METHODS[battery[c]["k"]]
        for p in r.sample(range(nproc), ctx.pick(3, 6)):
            jobs_of[p].append({"id": 0, "hist": [{"op": "build", "c": 1}, {"op": "render", "c": 1,
                                                                          "m": list(range(len(ms)))}], "map": [c], "gc": False})
    for c in range(len(battery)):
        ms = METHODS[battery[c]["k"]]
        for m in range(len(ms)):
            if r.random() < ctx.pick(0.3, 1.0):
                jobs_of[r.randrange(nproc)].append({"id": 0, "hist": [{"op": "build", "c": 1}, {"op": "render", "c": 1, "m": [m]}],
                                                    "map": [c], "gc": False})
    # histories of the specification over related constructions
    hs = r.sample(hists, min(len(hists), ctx.pick(1600, 16000)))
    for h in hs:
        g = r.choice(groups) if r.random() < 0.7 else range(len(battery))
        job(r.randrange(nproc), h, [r.choice(g) for _ in range(3)])
    # long histories: everything, in a random order, in one process
    for p in range(nproc):
        for _ in range(ctx.pick(2, 6)):
            idx = list(range(len(battery)))
            r.shuffle(idx)
            hist = []
            for i, c in enumerate(idx):
                hist += [{"op": "build", "c": i + 1}, {"op": "render", "c": i + 1}]
                if r.random() < 0.3:
                    hist.append({"op": "trash", "c": i + 1})
                if r.random() < 0.3:
                    j = r.randrange(i + 1)
                    hist += r.choice([[{"op": "render", "c": j + 1}],
                                      [{"op": "build", "c": j + 1}, {"op": "render", "c": j + 1}]])
            job(p, hist, idx)
    for p in range(nproc):
        r.shuffle(jobs_of[p])
    results = run_processes(battery, jobs_of, r)
    obs, lost, names = {}, 0, set()
    for p, res in enumerate(results):
        for x in res:
            if x["res"] is None:
                lost += 1
                continue
            for n, (c, m, o, text) in enumerate(x["res"]):
                obs.setdefault(c, []).append((m, o, p, x["id"], text))
    total = sum(len(j) for j in jobs_of)
    if lost > total // 20:
        raise Machinery(f"{lost} of {total} histories died")
    lines = []
    for c, seen in obs.items():
        uniq, ev, info = set(), [], {}
        counts = len(seen)
        # repeated equal observations add nothing: one event per distinct (method, output, process)
        for m, o, p, j, text in seen:
            if (m, o, p) not in uniq:
                uniq.add((m, o, p))
                ev.append({"op": "obs", "m": m, "o": o, "p": p, "j": j})
                info.setdefault(m, {}).setdefault(o, [SEEDS[p % len(SEEDS)], text])
        lines.append({"in": {"construction": battery[c], "differs": {m: x for m, x in info.items() if len(x) > 1}},
                      "q": "construction", "observations": counts, "ev": ev})
    ctx.notes.update({"processes": nproc, "hash_seeds": SEEDS, "histories": total, "constructions": len(battery),
                      "observations": sum(len(v) for v in obs.values()), "lost_histories": lost})
    ctx.judge_traces("JudgeDet", "DetStart", "DetStep", lines)

    # names
    pays = payloads(r, ctx.pick(3000, 20000))
    half = pays[::2] + pays[1::2]
    pairs = set()
    for nodes in pays + list(reversed(half)):
        ok, v = name_of(nodes)
        if ok:
            pairs.add(v)
    for c in range(len(battery)):
        if battery[c]["k"] == "hc":
            ok, v = name_of(battery[c]["c"])
            if ok:
                pairs.add(v)
    for i in range(ctx.pick(200000, 800000)):
        s = "<meta name='%d'>" % i if i % 2 else "<!--%x-->" % (i * 7919)
        ok, d = guarded(lambda: H.head_content(HTML(s)))
        if ok:
            pairs.add((sha(s), d.name))
    pairs = {(a, b) for a, b in pairs if isinstance(b, str)}
    ctx.notes["head_content_names"] = len(pairs)
    lines = name_lines(pairs, "names") + doc_lines(r, ctx.pick(1500, 15000))
    ctx.judge_traces("JudgeDet", "DetStart", "DetStep", lines)
    ctx.assumptions += ["rendered content of head_content(*x) is TagList(*x).get_html_string()",
                        "payloads without dependencies of their own"]
