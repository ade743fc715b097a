"""Reader for the JavaScript subset of React.createElement expressions.

Literals are kept raw (the text between the quotes): spec/Jsx.tla decides what they
denote.  jsx() expressions are arbitrary JavaScript, so the reader is told which
texts may occur.
"""
import re

from .core import cps

CALL = "React.createElement("
NUM = re.compile(r"[+-]?(?:\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|0[xX][0-9a-fA-F]+)")
IDENT = re.compile(r"(?:[^\W\d]|\$)[\w$]*(?:\.(?:[^\W\d]|\$)[\w$]*)*")


class Bad(Exception):
    pass


def num_text(v):
    """One spelling per number."""
    if isinstance(v, bool):
        raise Bad
    if isinstance(v, int):
        return str(v)
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "Infinity" if v > 0 else "-Infinity"
    return str(int(v)) if v == int(v) else repr(v)


class Reader:
    def __init__(self, text, exprs=()):
        self.t, self.i = text, 0
        self.exprs = sorted(set(exprs), key=len, reverse=True)

    def ws(self):
        while self.i < len(self.t) and self.t[self.i] in " \t\r\n":
            self.i += 1

    def peek(self, s):
        return self.t.startswith(s, self.i)

    def eat(self, s):
        self.ws()
        if not self.peek(s):
            raise Bad(f"expected {s!r} at {self.i}: {self.t[self.i:self.i + 40]!r}")
        self.i += len(s)

    def raw(self, q='"'):
        self.eat(q)
        j = self.i
        while j < len(self.t) and self.t[j] != q:
            j += 2 if self.t[j] == "\\" else 1
        if j >= len(self.t):
            raise Bad("unterminated string")
        s = self.t[self.i:j]
        self.i = j + 1
        return s

    def seq(self, close, item):
        out = []
        self.ws()
        while not self.peek(close):
            out.append(item())
            self.ws()
            if self.peek(","):
                self.i += 1
                self.ws()
            elif not self.peek(close):
                raise Bad(f"expected , or {close} at {self.i}: {self.t[self.i:self.i + 40]!r}")
        self.i += len(close)
        return out

    def entry(self):
        self.ws()
        if self.peek('"'):
            n = self.raw()
        else:
            m = IDENT.match(self.t, self.i) or NUM.match(self.t, self.i)
            if not m:
                raise Bad("key")
            self.i = m.end()
            n = m.group()
        self.eat(":")
        return {"n": cps(n), "v": self.value()}

    def value(self):
        self.ws()
        for e in self.exprs:
            if self.peek(e):
                self.i += len(e)
                return {"t": "expr", "s": cps(e)}
        if self.peek(CALL):
            return self.call()
        if self.peek('"'):
            return {"t": "str", "r": cps(self.raw())}
        if self.peek("["):
            self.i += 1
            return {"t": "arr", "c": self.seq("]", self.value)}
        if self.peek("{"):
            self.i += 1
            return {"t": "obj", "e": self.seq("}", self.entry)}
        for w, t in (("null", "null"), ("true", "true"), ("false", "false")):
            if re.compile(w + r"(?![\w$])").match(self.t, self.i):
                self.i += len(w)
                return {"t": t}
        m = re.compile(r"[+-]?(NaN|Infinity)(?![\w$])").match(self.t, self.i)
        if m:
            self.i = m.end()
            return {"t": "num", "s": cps(m.group().lstrip("+").replace("-NaN", "NaN"))}
        m = NUM.match(self.t, self.i)
        if m:
            self.i = m.end()
            s = m.group()
            v = int(s) if re.fullmatch(r"[+-]?\d+", s) else int(s, 16) if "x" in s.lower() else float(s)
            return {"t": "num", "s": cps(num_text(v))}
        raise Bad(f"value at {self.i}: {self.t[self.i:self.i + 40]!r}")

    def call(self):
        self.eat(CALL)
        self.ws()
        if self.peek("'") or self.peek('"'):
            comp, n = False, self.raw(self.t[self.i])
        else:
            m = IDENT.match(self.t, self.i)
            if not m:
                raise Bad("component name")
            self.i = m.end()
            comp, n = True, m.group()
        self.ws()
        props, kids = [], []
        if self.peek(","):
            self.i += 1
            self.ws()
            v = self.value()
            if v["t"] == "obj":
                props = v["e"]
            elif v["t"] != "null":
                raise Bad("props")
            self.ws()
            if self.peek(","):
                self.i += 1
                kids = self.seq(")", self.value)
                return {"t": "el", "comp": comp, "n": cps(n), "p": props, "c": kids}
        self.eat(")")
        return {"t": "el", "comp": comp, "n": cps(n), "p": props, "c": kids}


def read(text, exprs=()):
    """The first createElement expression of a script, or None."""
    i = text.find(CALL)
    if i < 0:
        return None
    r = Reader(text, exprs)
    r.i = i
    try:
        e = r.call()
    except (Bad, RecursionError, ValueError):
        return None
    # nothing may follow but the rest of the wrapper
    rest = text[r.i:].lstrip()
    return e if rest.startswith((",", ")", ";")) else None
