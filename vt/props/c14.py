"""C14: child lists hold only normalised nodes after any sequence of operations."""
import enum
from collections import UserString, namedtuple

from ..build import (H, HTML, HtmlSub, PlainMeta, ReprObj, StrSub, Tag, TagList, Tgf, TgfRepr,
                     build_dep, num_of)
from ..core import cps, guarded, uncps

BADS = ["object", "dict", "set", "bytes", "func", "complex", "userstring", "range", "gen", "map",
        "dictview", "frozenset", "bytearray", "exc", "ellipsis"]


class Lst(list):
    pass


class Tup(tuple):
    pass


Pair = namedtuple("Pair", "a b")


class Tgl(TagList):
    pass


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 7


class Flt(float):
    pass


def bad_value(kind):
    return {"object": object(), "dict": {"a": 1}, "set": {1}, "bytes": b"ab", "func": len,
            "complex": 1j, "userstring": UserString("ab"), "range": range(2),
            "gen": (x for x in ("a",)), "map": map(str, [1]), "dictview": {"a": 1}.keys(),
            "frozenset": frozenset("a"), "bytearray": bytearray(b"a"), "exc": ValueError("x"),
            "ellipsis": ...}[kind]


def make_obj(i):
    k = i % 8
    if k == 0:
        return Tag("b", "t", id=str(i))
    if k == 1:
        return ReprObj("r%d" % i)
    if k == 2:
        return PlainMeta()
    if k == 3:
        return build_dep({"name": "d%d" % i, "version": "1"})
    if k == 4:
        return Tgf({"c": [{"k": "text", "s": cps("x")}], "lst": True})
    if k == 5:
        return TgfRepr({"c": [{"k": "text", "s": cps("x")}], "lst": False, "s": cps("q")})
    if k == 6:
        return Tag("br", _add_ws=False)
    return H.head_content("h%d" % i)


class World:
    """The real objects of one history."""

    def __init__(self, r):
        self.r = r
        self.lists = []      # ("list", TagList) or ("tag", Tag)
        self.objs = {}
        self.ids = {}
        self.keep = []

    def obj(self, i):
        if i not in self.objs:
            o = make_obj(i)
            self.objs[i] = o
            self.ids[id(o)] = i
        return self.objs[i]

    def get(self, i):
        k, v = self.lists[i - 1]
        return v.children if k == "tag" else v

    def value(self, a):
        k, r = a["k"], self.r
        if k == "text":
            s = uncps(a["s"])
            return StrSub(s) if r.random() < 0.1 else s
        if k == "html":
            s = uncps(a["s"])
            return HtmlSub(s) if r.random() < 0.1 else HTML(s)
        if k == "num":
            s = uncps(a["s"])
            if s in ("True", "False"):
                return s == "True"
            v = num_of(s)
            if r.random() < 0.15:
                # "numbers converted to their str() text": subclasses whose str() is the same
                v = r.choice([x for x in (Level.LOW, Flt(v) if isinstance(v, float) else v) if str(x) == s] or [v])
            return v
        if k == "none":
            return None
        if k == "obj":
            return self.obj(a["id"])
        if k == "ref":
            return self.get(a["i"])
        if k == "bad":
            return bad_value(a.get("b") or r.choice(BADS))
        c = [self.value(x) for x in a["c"]]
        if k == "iter":
            return r.choice([iter(c), (x for x in c), map(lambda x: x, c)])
        t = r.random() if not a.get("plain") else 0.5
        if t < 0.18:
            return tuple(c)
        if t < 0.25:
            return Pair(*c) if len(c) == 2 else Tup(c)
        if t > 0.92:
            return Lst(c)
        if t < 0.4 and all(x["k"] != "bad" for x in a["c"]):
            ok, v = guarded(lambda: (Tgl if r.random() < 0.3 else TagList)(*c))
            return v if ok else c
        return c

    def obs(self):
        out = []
        nodes = True
        for i in range(len(self.lists)):
            row = []
            for x in self.get(i + 1):
                if not H.is_tag_node(x):
                    nodes = False
                if isinstance(x, str):
                    row.append({"k": "text", "s": cps(x)})
                elif isinstance(x, HTML):
                    row.append({"k": "html", "s": cps(x.as_string())})
                elif id(x) in self.ids:
                    row.append({"k": "obj", "id": self.ids[id(x)]})
                else:
                    row.append({"k": "odd", "t": type(x).__name__})
            out.append(row)
        return out, nodes


def child_ok(o, raw):
    """is_tag_child on every child value the operation was given."""
    vals = []
    if o["op"] in ("new", "append", "insert"):
        vals = list(raw)
    elif o["op"] in ("extend", "iadd", "add", "radd") and o["a"][0]["k"] != "iter":
        vals = [raw[0]]

    def deep(v):
        yield v
        if isinstance(v, (list, tuple, TagList)):
            for x in v:
                yield from deep(x)
    return all(H.is_tag_child(y) for v in vals for y in deep(v))


def run(hist, r, names=("div", "br", "script")):
    w = World(r)
    ev = []
    for o in hist:
        op, rr = o["op"], o["r"]
        if max([rr] + list(refs(o["a"]))) > len(w.lists):
            break       # an earlier operation failed
        a_ = o["a"]
        if op in ("extend", "iadd", "add", "radd") and a_[0]["k"] == "bad":
            # not an iterable at all
            a_ = [{"k": "bad", "b": r.choice(["object", "func", "complex", "ellipsis", "exc"])}]
        if op == "new" and o.get("tag"):    # a dict argument of a tag holds attributes
            a_ = [{"k": "bad", "b": r.choice(BADS[2:])} if x["k"] == "bad" and x.get("b", "dict") == "dict"
                  else x for x in a_]
        raw = [w.value(a) for a in a_]
        child = False if any_bad(o["a"]) else guarded(lambda: child_ok(o, raw)) == (True, True)
        kind, recv = w.lists[rr - 1] if rr else (None, None)
        lst = w.get(rr) if rr else None
        new = []

        def go():
            if op == "new":
                if o.get("tag"):
                    new.append(("tag", Tag(r.choice(names), *raw)))
                else:
                    new.append(("list", TagList(*raw)))
            elif op == "append":
                (recv if kind == "tag" and r.random() < 0.7 else lst).append(*raw)
            elif op == "extend":
                (recv if kind == "tag" and r.random() < 0.7 else lst).extend(raw[0])
            elif op == "insert":
                (recv if kind == "tag" and r.random() < 0.7 else lst).insert(o["i"], raw[0])
            elif op == "iadd":
                if kind == "tag":
                    recv.children += raw[0]
                else:
                    x = lst
                    x += raw[0]
                    w.lists[rr - 1] = ("list", x)
            elif op == "imul":
                if kind == "tag":
                    recv.children *= o["i"]
                else:
                    x = lst
                    x *= o["i"]
                    w.lists[rr - 1] = ("list", x)
            elif op == "add":
                new.append(("list", lst + raw[0]))
            elif op == "radd":
                new.append(("list", raw[0] + lst))
            elif op == "mul":
                new.append(("list", lst * o["i"]))
            elif op == "rmul":
                new.append(("list", o["i"] * lst))
            elif op == "slice":
                f, t = (x[0] if x else None for x in (o["from"], o["to"]))
                new.append(("list", lst[f:t:o["step"]] if o["step"] != 1 or r.random() < 0.5 else lst[f:t]))
            else:
                raise ValueError(op)
        ok, v = guarded(go)
        typ = True
        if ok:
            for k, x in new:
                if not isinstance(x.children if k == "tag" else x, TagList):
                    typ = False
            if rr and not isinstance(w.get(rr), TagList):
                typ = False
            w.lists += new
        w.keep.append(raw)
        try:
            obs, nodes = w.obs()
        except Exception:
            obs, nodes, typ = [], True, False
        ev.append({**o, "res": {"ok": ok, "e": "" if ok else str(v)}, "obs": obs, "nodes": nodes,
                   "child": child, "type": typ})
        if (ok and not typ) or any(x["k"] == "odd" for row in obs for x in row):
            break
    return {"in": {"hist": hist}, "q": "children", "ev": ev}


def refs(c):
    for x in c:
        if x["k"] == "ref":
            yield x["i"]
        elif "c" in x:
            yield from refs(x["c"])


def any_bad(c):
    return any(x["k"] == "bad" or ("c" in x and any_bad(x["c"])) for x in c)


def O(op, rr, a=(), i=0, f=(), t=(), s=1, **kw):
    return {"op": op, "r": rr, "a": list(a), "i": i, "from": list(f), "to": list(t), "step": s, **kw}


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0

    def arg(self, depth=0, bad=0.0):
        r = self.r
        k = r.random()
        if bad and r.random() < bad:
            return {"k": "bad", "b": r.choice(BADS)}
        if k < 0.2:
            return {"k": "text", "s": cps(r.choice(["", "a", "ab", "<&>", "xyz", "1"]))}
        if k < 0.32:
            return {"k": "num", "s": cps(str(r.choice([0, 1, -3, 2.5, True, False, 1e22, 10 ** 25,
                                                       float("inf"), float("nan"), -0.0])))}
        if k < 0.42:
            return {"k": "none"}
        if k < 0.5:
            return {"k": "html", "s": cps(r.choice(["", "ab", "<i>"]))}
        if k < 0.72 or depth > 3:
            return {"k": "obj", "id": r.randint(1, 16)}
        if k < 0.8 and self.n:
            return {"k": "ref", "i": r.randint(1, self.n)}
        return {"k": "list", "c": [self.arg(depth + 1, bad) for _ in range(r.choice([0, 1, 2, 3]))]}

    def iterable(self, bad=0.0):
        r = self.r
        k = r.random()
        if bad and r.random() < 0.2 * (bad > 0):
            return {"k": "bad", "b": r.choice(["object", "func", "complex", "ellipsis"])}
        if k < 0.15:
            return {"k": "text", "s": cps(r.choice(["", "ab", "xyz"]))}
        if k < 0.25:
            return {"k": "html", "s": cps(r.choice(["", "ab", "<i>x</i>"]))}
        if k < 0.4 and self.n:
            return {"k": "ref", "i": r.randint(1, self.n)}
        return {"k": "iter" if k > 0.8 else "list",
                "c": [self.arg(1, bad) for _ in range(r.choice([0, 1, 2, 3]))]}

    def hist(self):
        r = self.r
        self.n = 0
        h = []
        while len(h) < r.randint(2, 9):
            b = r.choice([0, 0, 0, 0.15])
            if self.n == 0 or (r.random() < 0.12 and self.n < 5):
                o = O("new", 0, [self.arg(0, b) for _ in range(r.randint(0, 4))], tag=r.random() < 0.5)
                if not any_bad(o["a"]):
                    self.n += 1
                h.append(o)
                continue
            rr = r.randint(1, self.n)
            k = r.choice(["append", "append", "append", "extend", "extend", "insert", "insert", "iadd",
                          "iadd", "add", "radd", "slice", "mul", "rmul", "imul"])
            if k in ("add", "radd", "slice", "mul", "rmul") and self.n >= 6:
                continue
            if k == "append":
                o = O(k, rr, [self.arg(0, b) for _ in range(r.choice([1, 1, 2, 3]))])
            elif k == "insert":
                o = O(k, rr, [self.arg(0, b)], r.randint(-6, 6))
            elif k in ("extend", "iadd", "add"):
                o = O(k, rr, [self.iterable(b)])
            elif k == "radd":
                x = self.iterable(b)
                if x["k"] in ("html", "ref"):
                    continue
                o = O(k, rr, [x])
            elif k == "slice":
                o = O(k, rr, f=[r.randint(-5, 5)] * r.randint(0, 1), t=[r.randint(-5, 5)] * r.randint(0, 1),
                      s=r.choice([1, 1, 1, 2, -1, -2, 3]))
            else:
                o = O(k, rr, i=r.choice([-1, 0, 1, 2, 2, 3]))
            if k in ("add", "radd", "slice", "mul", "rmul") and not any_bad(o["a"]):
                self.n += 1
            h.append(o)
        return h


def check(ctx):
    r = ctx.rng
    hists = []
    for ops, ls, rich in ctx.pick([(1, 2, True), (2, 2, False)], [(1, 2, True), (2, 3, True)]):
        hists += ctx.model("MCChild", f"MCChild ops<={ops} lists<={ls} rich={rich}",
                           consts={"MaxOps": ops, "MaxLists": ls, "Rich": rich, "EmitOn": True},
                           invariants=["Normal", "Algebra", "Emit"], props=["Frame"])
    if len(hists) > ctx.pick(15000, 120000):
        hists = r.sample(hists, ctx.pick(15000, 120000))
    lines = []
    for h in hists:
        h = [dict(o) for o in h]
        h[0]["tag"] = r.random() < 0.4
        lines.append(run(h, r))
    g = Gen(r)
    for _ in range(ctx.pick(6000, 80000)):
        lines.append(run(g.hist(), r))
    # long argument lists, deep nesting
    for n in (11, 33, 65, 129):
        for _ in range(ctx.pick(4, 12)):
            big = lambda: [g.arg(3) for _ in range(n)]
            g.n = 1
            deep = {"k": "text", "s": cps("deep")}
            for i in range(min(n, 110)):
                deep = {"k": "list", "plain": n != 33, "c": [deep, {"k": "none"}] if i % 3 else [{"k": "num", "s": cps(str(i))}, deep]}
            ops = [O("append", 1, big()), O("extend", 1, [{"k": "list", "c": big()}]), O("insert", 1, [{"k": "list", "c": big()}], 1),
                   O("iadd", 1, [{"k": "iter", "c": big()}]), O("append", 1, [deep]), O("add", 1, [{"k": "list", "c": big()}])]
            first = lambda: O("new", 0, [g.arg(4) for _ in range(2)], tag=r.random() < 0.5)
            lines.append(run([first(), *r.sample(ops, 2)], r))
            lines.append(run([first(), r.choice([ops[4], O("extend", 1, [deep]), O("insert", 1, [deep], 0), O("add", 1, [deep]),
                                                 O("iadd", 1, [deep])])], r))
            lines.append(run([O("new", 0, [deep], tag=r.random() < 0.5)], r))
            g.n = 0
            lines.append(run([O("new", 0, [g.arg(4) for _ in range(n)], tag=r.random() < 0.5)], r))
    # very long ones: one operation each
    for n in ctx.pick((260, 520, 1030, 2100), (260, 520, 1030, 2100, 4200)):
        for k in range(7):
            g.n = 1
            many = [g.arg(4) for _ in range(n)]
            one = [{"k": "list", "c": many}]
            o = [O("append", 1, many), O("append", 1, one), O("extend", 1, one), O("insert", 1, one, 1),
                 O("iadd", 1, [{"k": "iter", "c": many}]), O("add", 1, one), O("radd", 1, one)][k]
            lines.append(run([O("new", 0, [{"k": "text", "s": cps("a")}], tag=k < 4 and r.random() < 0.5), o], r))
        g.n = 0
        lines.append(run([O("new", 0, [g.arg(4) for _ in range(n)], tag=r.random() < 0.5)], r))
    # every unsupported type through every operation
    for b in BADS:
        x = {"k": "bad", "b": b}
        for tag in (True, False):
            for where in ([x], [{"k": "text", "s": cps("a")}, x], [{"k": "list", "c": [{"k": "none"}, x]}]):
                for ops in ([O("append", 1, where)], [O("insert", 1, [where[-1]], 0)],
                            [O("extend", 1, [{"k": "list", "c": where}])],
                            [O("extend", 1, [{"k": "iter", "c": where}])],
                            [O("iadd", 1, [{"k": "list", "c": where}])],
                            [O("add", 1, [{"k": "list", "c": where}])],
                            [O("radd", 1, [{"k": "list", "c": where}])], [O("new", 0, where, tag=tag)]):
                    lines.append(run([O("new", 0, [{"k": "obj", "id": 1}, {"k": "text", "s": cps("z")}],
                                        tag=tag)] + ops, r))
    ctx.judge_traces("JudgeChild", "ChildStart", "ChildStep", lines)
    ctx.assumptions += ["extend/+/+= with a bare number, None, tag or dict is left open (not an iterable of "
                        "children); HTML() + TagList is HTML's operator (C04)"]
