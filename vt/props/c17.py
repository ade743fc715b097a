"""C17: the tag context manager restores the display hook and collects children in order."""
import builtins
import contextlib
import functools
import io
import sys

from ..build import H, HTML, HtmlSub, PlainMeta, StrSub, Tag, TagList, Tgf, build_dep, num_of
from ..core import CaseTimeout, cps, guarded, uncps
from ..disturb import disturb
from .c14 import BADS, bad_value


class Repr:
    """Self-rendering; optionally equal to everything, or raising."""

    def __init__(self, s, mode=""):
        self.s, self.mode = s, mode

    def _repr_html_(self):
        if self.mode == "raise":
            raise ValueError("repr")
        disturb(len(self.s))
        return self.s


class EqRepr(Repr):
    def __eq__(self, other):
        return True

    __hash__ = None


class EqAll:
    def __eq__(self, other):
        return True

    __hash__ = None


class EqRaise:
    def __eq__(self, other):
        raise ValueError("compared")

    __hash__ = None


class EqList:
    """Like an array: comparison has no truth value."""

    class _No:
        def __bool__(self):
            raise ValueError("ambiguous")

    def __eq__(self, other):
        return EqList._No()

    __hash__ = None


class TagSub(Tag):
    pass


class Callee:
    """A hook that is an object; all of them compare equal."""

    def __init__(self, f):
        self.f = f

    def __call__(self, value):
        return self.f(value)

    def method(self, value):
        return self.f(value)

    def __eq__(self, other):
        return True

    __hash__ = None


class Stop(Exception):
    pass


EXCS = [Stop, ValueError, KeyboardInterrupt, GeneratorExit, SystemExit, TypeError, RuntimeError, StopIteration]
MINE = [b for b in BADS if b != "ellipsis"] + ["eqall", "eqraise", "eqlist", "notimpl", "type"]


def tag_kinds(r, i):
    k = r.random()
    if k < 0.4:
        return Tag(r.choice(["div", "span", "p", "br", "script", "html"]), _add_ws=r.random() < 0.5)
    if k < 0.6:
        return H.tags.div(id="t%d" % i)
    if k < 0.7:
        return TagSub("x-sub")
    if k < 0.8:
        return H.svg.g()
    return Tag("div", {"class": "a"}, H.div("kid") if r.random() < 0.5 else "kid", None)


class Run:
    def __init__(self, r, ntags, customs=3, raising=()):
        self.r = r
        self.tags = [tag_kinds(r, i) for i in range(ntags)]
        self.tagid = {id(t): i + 1 for i, t in enumerate(self.tags)}
        self.ids, self.keep = {}, []
        self.objs = {}
        for t in self.tags:
            for c in t.children:
                self.seen_obj(c)
        self.hooks = []
        self.recv = [[] for _ in range(customs)]
        self.raising = set(raising)
        self.ev = []
        self.std = None
        self.customs = [self.custom(i) for i in range(customs)]

    def seen_obj(self, o):
        if isinstance(o, (str, HTML)) or id(o) in self.tagid or id(o) in self.ids:
            return
        self.keep.append(o)
        self.ids[id(o)] = 1000 + len(self.ids)

    def custom(self, i):
        def hook(value):
            self.recv[i].append({"k": "tag", "t": self.tagid[id(value)]} if id(value) in self.tagid else {"k": "val"})
            if i + 1 in self.raising:
                raise Stop("hook")
        k = self.r.random()
        if k < 0.15:
            return Callee(hook)
        if k < 0.3:
            return Callee(hook).method
        if k < 0.4:
            return functools.partial(hook)
        if k < 0.5 and self.std is None:
            self.raising.add(i + 1)     # the interpreter's own hook prints, which may raise
            self.std = i
            return sys.__displayhook__
        return hook

    def poll(self):
        """What the interpreter's own hook was given."""
        v = getattr(builtins, "_", None)
        if self.std is not None and id(v) in self.tagid:
            self.recv[self.std].append({"k": "tag", "t": self.tagid[id(v)]})
        builtins._ = None

    def hk(self):
        h = sys.displayhook
        for i, x in enumerate(self.hooks):
            if x is h:
                return i + 1
        self.hooks.append(h)
        return len(self.hooks)

    def kid(self, x):
        if id(x) in self.tagid:
            return {"k": "tag", "t": self.tagid[id(x)]}
        if isinstance(x, HTML):
            return {"k": "html", "s": cps(x.as_string())}
        if isinstance(x, str):
            return {"k": "text", "s": cps(x)}
        if id(x) in self.ids:
            return {"k": "obj", "id": self.ids[id(x)]}
        return {"k": "odd", "t": type(x).__name__}

    def kids(self):
        return [[self.kid(x) for x in t.children] for t in self.tags]

    def log(self, op, ok=True, e="", **kw):
        self.poll()
        self.ev.append({"op": op, "res": {"ok": ok, "e": e}, "hk": self.hk(), "kids": self.kids(),
                        "recv": [list(x) for x in self.recv], **kw})

    # ---- values
    def value(self, v):
        """(abstract value, real value)"""
        k, r = v["k"], self.r
        if k == "text":
            s = uncps(v["s"])
            return v, StrSub(s) if r.random() < 0.1 else s
        if k == "html":
            s = uncps(v["s"])
            return v, HtmlSub(s) if r.random() < 0.1 else HTML(s)
        if k == "num":
            s = uncps(v["s"])
            return v, s == "True" if s in ("True", "False") else num_of(s)
        if k == "none":
            return v, None
        if k == "ell":
            return v, ...
        if k == "tag":
            return v, self.tags[v["t"] - 1]
        if k == "bad":
            b = v["b"]
            return {"k": "bad"}, {"eqall": EqAll, "eqraise": EqRaise, "eqlist": EqList,
                                  "notimpl": lambda: NotImplemented, "type": lambda: int}.get(b, lambda: bad_value(b))()
        if k == "rraise":
            return v, Repr("", "raise")
        if k == "repr":
            o = r.choice([Repr, Repr, EqRepr])(uncps(v["s"]))
            self.seen_obj(o)
            return {"k": "repr", "id": self.ids[id(o)], "s": v["s"]}, o
        if k == "obj":
            i = v["id"]
            if i not in self.objs:
                o = [lambda: Tag("b", "x"), PlainMeta, lambda: build_dep({"name": "d", "version": "1"}),
                     lambda: Tgf({"c": [{"k": "text", "s": cps("x")}], "lst": True}),
                     lambda: H.head_content("h"), lambda: Tag("br", _add_ws=False)][i % 6]()
                self.objs[i] = o
                self.seen_obj(o)
            return {"k": "obj", "id": self.ids[id(self.objs[i])]}, self.objs[i]
        both = [self.value(x) for x in v["c"]]
        a, c = [x[0] for x in both], [x[1] for x in both]
        t = r.random()
        if t < 0.3:
            c = tuple(c)
        elif t < 0.5:
            ok, tl = guarded(lambda: TagList(*c))
            if ok:
                c = tl
        return {"k": "list", "c": a}, c

    # ---- statements
    def block(self, body):
        for s in body:
            op = s["op"]
            if self.r.random() < 0.1:
                disturb(self.r.randrange(1000))    # other uses of the library in between
            if op == "show":
                self.show(s)
            elif op == "with":
                self.with_(s)
            elif op == "raise":
                raise s["e"]("boom")
            elif op == "set":
                self.set_(s["i"])
            elif op == "try":
                try:
                    self.block(s["body"])
                except BaseException as e:
                    if isinstance(e, CaseTimeout):
                        raise
            else:
                raise ValueError(op)

    def set_(self, i):
        sys.displayhook = self.customs[i - 1]
        self.log("set", i=i)

    def show(self, s):
        a, v = self.value(s["v"])
        single = self.r.random() < 0.3
        try:
            if single:
                exec(compile("v", "<shown>", "single"), {"v": v})
            else:
                sys.displayhook(v)
        except CaseTimeout:
            raise
        except BaseException as e:
            self.log("show", False, type(e).__name__, v=a)
            raise
        self.log("show", v=a)

    def with_(self, s):
        t = self.tags[s["t"] - 1]
        entered = body = False
        try:
            with t:
                entered = True
                self.log("enter", t=s["t"])
                try:
                    self.block(s["body"])
                except BaseException:
                    body = True
                    raise
        except CaseTimeout:
            raise
        except BaseException as e:
            if not entered:
                self.log("enter", False, type(e).__name__, t=s["t"])
            else:
                self.log("exit", False, type(e).__name__, t=s["t"], body=body)
            raise
        else:
            self.log("exit", t=s["t"], body=body)

    def run(self, prog):
        saved = sys.displayhook
        sys.displayhook = self.customs[0]
        self.hk()
        start = self.kids()
        try:
            builtins._ = None
            with contextlib.redirect_stdout(io.StringIO()):
                ok, e = guarded(lambda: self.top(prog))
        finally:
            sys.displayhook = saved
            builtins.__dict__.pop("_", None)
        return {"in": {"prog": brief(prog)}, "q": "hooks", "kids": start, "customs": len(self.customs),
                "raising": sorted(self.raising), "ev": self.ev}

    def top(self, prog):
        # every top-level statement runs, as lines of a notebook would
        for s in prog:
            try:
                self.block([s])
            except CaseTimeout:
                raise
            except BaseException:
                pass


def brief(prog):
    out = []
    for s in prog:
        s = dict(s)
        if "e" in s:
            s["e"] = s["e"].__name__
        if "body" in s:
            s["body"] = brief(s["body"])
        out.append(s)
    return out


# ---- from histories of spec/MCHooks.tla to programs
def program(hist, r):
    pos = 0

    def block(active):
        nonlocal pos
        out = []
        while pos < len(hist):
            e = hist[pos]
            pos += 1
            op = e["op"]
            if op in ("exit", "endtry"):
                return out
            if op == "enter":
                out.append({"op": "with", "t": e["t"], "body": [] if e["t"] in active else block(active | {e["t"]})})
            elif op == "try":
                out.append({"op": "try", "body": block(active)})
            elif op == "raise":
                out.append({"op": "raise", "e": r.choice(EXCS)})
            elif op == "set":
                out.append({"op": "set", "i": 2})
            else:
                v = {"text": {"k": "text", "s": cps("a")}, "none": r.choice([{"k": "none"}, {"k": "ell"}]),
                     "repr": {"k": "repr", "s": cps("<r>")}, "bad": {"k": "bad", "b": r.choice(MINE)}}[e["v"]]
                out.append({"op": "show", "v": v})
        return out
    return block(frozenset())


class Gen:
    def __init__(self, r, ntags, p_exc=0.15):
        self.r, self.ntags, self.p = r, ntags, p_exc
        self.left = r.randint(3, 30)

    def val(self, depth=0, active=()):
        r = self.r
        k = r.random()
        if k < 0.05:
            return {"k": "rraise"} if depth == 0 and r.random() < 0.3 else {"k": "bad", "b": r.choice(MINE)} if (
                r.random() < self.p * 4) else {"k": "none"}
        if k < 0.25:
            return {"k": "text", "s": cps(r.choice(["", "a", "ab", "<&>"]))}
        if k < 0.35:
            return {"k": "num", "s": cps(str(r.choice([0, 1, -3, 2.5, True, False, 0.0])))}
        if k < 0.42:
            return {"k": "none"}
        if k < 0.47:
            return {"k": "ell"} if depth == 0 else {"k": "none"}
        if k < 0.55:
            return {"k": "html", "s": cps(r.choice(["", "<i>"]))}
        if k < 0.68:
            return {"k": "repr", "s": cps(r.choice(["", "<r>", "x & y"]))}
        if k < 0.84 or depth > 2:
            return {"k": "obj", "id": r.randint(0, 11)}
        if k < 0.88:
            t = r.randint(1, self.ntags)
            if t not in active:
                return {"k": "tag", "t": t}
        if depth == 0 and r.random() < 0.1:
            return {"k": "list", "c": [{"k": "ell"}]}
        return {"k": "list", "c": [self.val(depth + 1, active) for _ in range(r.choice([0, 1, 2, 3]))]}

    def block(self, depth, active):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 2, 3, 5])):
            if self.left <= 0:
                break
            self.left -= 1
            k = r.random()
            if k < 0.4:
                out.append({"op": "show", "v": self.val(0, active)})
            elif k < 0.75 and depth < 8:
                t = r.randint(1, self.ntags)
                out.append({"op": "with", "t": t, "body": self.block(depth + 1, active | {t})})
            elif k < 0.87:
                out.append({"op": "try", "body": self.block(depth + 1, active)})
            elif k < 0.87 + self.p:
                out.append({"op": "raise", "e": r.choice(EXCS)})
            elif k > 0.95:
                out.append({"op": "set", "i": r.choice([2, 3])})
        return out


def check(ctx):
    r = ctx.rng
    hists = ctx.model("MCHooks", consts={"Tags": 2, "MaxOps": ctx.pick(5, 6), "EmitOn": True},
                      invariants=["ExactlyOnce", "AtMostOnce", "Ground", "Emit"], props=["Restores", "Intact"])
    n = ctx.pick(6000, 60000)
    if len(hists) > n:
        hists = r.sample(hists, n)
    lines = [Run(r, 2, 2).run(program(h, r)) for h in hists]
    for _ in range(ctx.pick(4000, 50000)):
        nt = r.choice([1, 2, 3, 5])
        g = Gen(r, nt, r.choice([0, 0.05, 0.12]))
        lines.append(Run(r, nt, 3, [3] if r.random() < 0.2 else []).run(g.block(0, frozenset())))
    ctx.judge_traces("JudgeHooks", "HookStart", "HookStep", lines, chunk=10000)
    ctx.assumptions += ["entering a tag whose block was left before may raise or work as a new block",
                        "blocks are left in the reverse order they were entered (with statements)"]
