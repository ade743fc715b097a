"""C12: dependency URLs and copied files agree."""
import hashlib
import importlib
import os
import shutil
import sys
from copy import deepcopy
from html.parser import HTMLParser

from .. import build as B
from ..build import H, HTMLDependency, Tag, TagList, attr_value, build_seq
from ..core import cps, guarded, scratch, uncps
from ..deps import VERS, V, ditem
from ..gen import HT, META, TAG, T

# ----------------------------------------------------------- real directories
_n = 0


class Box:
    """One scratch directory with everything the library may touch."""

    def __init__(self):
        global _n
        _n += 1
        self.n = _n
        self.root = os.path.join(os.path.realpath(scratch()), f"fs{_n}")
        os.makedirs(self.root)
        self.pkgs = {}

    def close(self):
        for m in self.pkgs:
            sys.modules.pop(m, None)
        if self.root in sys.path:
            sys.path.remove(self.root)
        shutil.rmtree(self.root, ignore_errors=True)

    def path(self, *rel):
        return os.path.join(self.root, *rel)

    def write(self, rel, data):
        p = self.path(rel)
        d = self.root
        for s in rel.split("/")[:-1]:       # a file may stand where a directory is needed
            d = os.path.join(d, s)
            if os.path.lexists(d) and not os.path.isdir(d):
                os.unlink(d)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)

    def segs(self, path):
        rel = os.path.relpath(path, self.root)
        return [] if rel == "." else [list(os.fsencode(s)) for s in rel.split("/")]

    def snap(self):
        out = []
        for d, ds, fs in os.walk(os.fsencode(self.root), followlinks=True):
            ds.sort()
            fs.sort()
            rel = os.path.relpath(d, os.fsencode(self.root))
            base = [] if rel == b"." else [list(s) for s in rel.split(b"/")]
            if base:
                out.append({"p": base, "d": True, "c": []})
            for f in fs:
                if not os.path.exists(os.path.join(d, f)):
                    continue            # a link to nothing
                out.append({"p": base + [list(f)], "d": False, "c": content(os.path.join(d, f))})
        return out

    def package(self, name):
        if name not in self.pkgs:
            os.makedirs(self.path(name), exist_ok=True)
            open(self.path(name, "__init__.py"), "w").close()
            if self.root not in sys.path:
                sys.path.insert(0, self.root)
            importlib.invalidate_caches()
            self.pkgs[name] = True


def content(p):
    """The bytes of a file; long contents by digest."""
    try:
        with open(p, "rb") as f:
            b = f.read()
    except OSError as e:
        return [300, e.errno]
    if len(b) > 40:
        return [256 + len(b) // 1000] + list(hashlib.sha256(b).digest())
    return list(b)


class Urls(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.urls = []

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == "script" and d.get("src") is not None:
            self.urls.append(d["src"])
        elif tag == "link" and d.get("href") is not None:
            self.urls.append(d["href"])

    handle_startendtag = handle_starttag


def urls_of(html):
    p = Urls()
    p.feed(html)
    p.close()
    return p.urls


# ----------------------------------------------------------- generators
SEG = ["a.js", "b.css", "x y.js", "100%.js", "%41.js", "a%20b", "c#d.js", "q?v=1.js", "é.js", "日本.css", "e\u0301.js",
       "😀.js", "a&b.js", "it's.js", '"q".js', "a+b.js", "a;b.js", "[x].js", "{y}.js", "back\\slash.js", ".hidden",
       "a:b.js", "a=b,c.js", "$x.js", "~t.js", "<t>.js", "a|b", "UPPER.JS", "no_ext", "tab\there.js", "nl\nx.js",
       "__init__.py", "a@b.js", "%", "%%", "%2F.js", "%2e%2e", "...", "-", "&amp;.js", "a'b\"c.js", "^`.js", "\u00a0.js", "(1)!*.js",
       "a.js~", "#a.js#", "a.js.bak2", "x.pyc", "Thumbs.db", ".DS_Store", "LICENSE", "core", "a.js.map", ".gitignore", "CVS",
       "A.JS", "A.js", "a.JS"]
DIRS = ["js", "css", "n e", "d%20", "ü", "#", "?", "a.b", "deep", "日", ".git", "x&y", "node_modules", "test", "tmp~", "JS", "__pycache__", ".venv", "src"]
NAMES = ["jq", "boot-strap", "d3.x", "my dep", "a_b", "@scope/pkg", "dép", "a+b", "x&y", "a", "JQ", "jq-ui"]
LIBS = ["lib", "lib", "lib", None, "", "a/b", "my lib", "../shared", "lib/", "./l", "x/../y", "dé/p", ".", "a+b&c"]


class Gen:
    def __init__(self, r, box):
        self.r, self.box, self.m, self.shared = r, box, 0, []
        self.whole, self.broken = [], []        # directories copied as a whole, and those with links to nothing

    def near(self, where, dirs):
        """One of dirs is the directory, lies in it or contains it."""
        w = os.path.normpath(where) + "/"
        return any(w.startswith(os.path.normpath(x) + "/") or (os.path.normpath(x) + "/").startswith(w) for x in dirs)

    def relpath(self, plain=False):
        r = self.r
        f = r.choice(SEG if not plain else ["a.js", "b.js", "c.css"])
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3])):
            f = r.choice(DIRS) + "/" + f
        return f

    def data(self):
        r = self.r
        k = r.random()
        if k < 0.1:
            return b""
        if k < 0.2:
            return bytes(r.randrange(256) for _ in range(r.choice([1000, 70000])))
        return bytes(r.randrange(256) for _ in range(r.randint(1, 8)))

    def tree(self, rel, n):
        """Write up to n files below rel; returns their relative paths."""
        out = []
        for _ in range(n):
            p = self.relpath()
            if any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q in out):
                continue
            if self.r.random() < 0.06:
                self.link(rel + "/" + p)
            else:
                self.box.write(rel + "/" + p, self.data())
            out.append(p)
        if self.r.random() < 0.05 and not any(q.split("/")[0] == "lnk" for q in out):
            self.box.write("elsewhere/in/f.js", b"far")
            self.relink(self.box.path("elsewhere"), self.box.path(rel, "lnk"))
            out.append("lnk/in/f.js")
        if self.r.random() < 0.2:
            os.makedirs(self.box.path(rel, "empty dir"), exist_ok=True)
        return out

    def relink(self, to, at):
        os.makedirs(os.path.dirname(at), exist_ok=True)
        os.symlink(os.path.relpath(to, os.path.dirname(at)), at)

    def link(self, rel):
        """A file that is a relative symbolic link out of the source directory."""
        name = f"elsewhere{self.r.randint(0, 1)}.bin"
        self.box.write(name, self.data())
        self.relink(self.box.path(name), self.box.path(rel))

    def items(self, files, key, url=False):
        r = self.r
        out = []
        for f in files:
            if r.random() < 0.1 and not url:
                f = "./" + f
            it = {key: f}
            if r.random() < 0.2:
                it[r.choice(["async", "defer", "media", "data_x"])] = r.choice(["", "print", V("true")])
            out.append(ditem(it))
        return out

    def dep(self, name, missing=0.12):
        r, box = self.r, self.box
        self.m += 1
        d = {"name": cps(name), "v": cps(r.choice(VERS + ["1!2.0", "1.0+abc", "2.0.post1"])), "m": self.m, "meta":
             [ditem({"name": "vt-m", "content": str(self.m)})], "script": [], "stylesheet": [], "all": False,
             "dir": [], "src": {"t": "none", "s": []}, "pkg": "", "given": ""}
        k = r.random()
        if k < 0.18:
            paths = [self.relpath() for _ in range(r.choice([0, 1, 2, 3]))]
            if r.random() < 0.75:
                d["src"] = {"t": "href", "s": cps(r.choice(
                    ["https://cdn.x/y", "https://cdn.x/y/", "//h/p", "/abs", "rel/u", "https://h", "http://h/?q=1&r=2", "/", "", "https://cdn//", "./", "..", "/a/b/", "HTTP://H/X/", "https://h/é", "a b/"]))}
        else:
            d["src"] = {"t": "sub", "s": []}
            if self.shared and r.random() < 0.25:
                # the source directory of another dependency, or a directory in it
                d["pkg"], d["given"], where, paths = r.choice(self.shared)
                tops = [q.split("/")[0] for q in paths if "/" in q]
                if tops and r.random() < 0.3:
                    t = r.choice(tops)
                    d["given"], where = d["given"].rstrip("/") + "/" + t, where.rstrip("/") + "/" + t
                    paths = [q[len(t) + 1:] for q in paths if q.startswith(t + "/")]
                paths = list(paths)
            else:
                if r.random() < 0.3:
                    pk = f"vtp{box.n}_{r.randint(0, 1)}"
                    box.package(pk)
                    base = pk
                    d["pkg"] = pk
                    sub = r.choice(["www", "www/", "w w/é", ".", "a/b%20", "./w", ".dot", "x/../w2", "d."])
                    if sub == ".":
                        sub = f"only{self.m}"
                    sub = sub if d["pkg"] and r.random() < 0.3 else f"s{self.m}/" + sub
                    d["given"] = sub
                    where = base + "/" + sub
                else:
                    where = "src/" + r.choice(["s", "s p", "s%41", "sé", "s#?", ".s"]) + str(self.m) + r.choice(["", "", "", ".", " ", "~", ".."])
                    if r.random() < 0.3:
                        where += "/in/ner"
                    d["given"] = ("rel:" if r.random() < 0.3 else "abs:") + where
                paths = self.tree(where, r.choice([1, 2, 3, 5] * 6 + [15, 40]))
                os.makedirs(box.path(where), exist_ok=True)
                self.shared.append((d["pkg"], d["given"], where, list(paths)))
            d["dir"] = box.segs(os.path.normpath(box.path(where)))
            d["all"] = r.random() < 0.35 and not self.near(where, self.broken)
            if d["all"]:
                self.whole.append(where)
                r.shuffle(paths)
                paths = paths[:r.randint(0, len(paths))]
                if r.random() < 0.1 and paths:
                    # a symbolic link in the source is copied as the file it names
                    try:
                        if "link.js" not in paths:
                            os.symlink(box.path(where, paths[0]), box.path(where, "link.js"))
                    except OSError:
                        pass
            else:
                r.shuffle(paths)
                paths = paths[:max(1, r.randint(0, len(paths)))]
                if r.random() < missing:
                    gone = r.choice(["gone.js", "no/such.css", "go ne%.js", "a.js.bak", "x.js.map", "m.mjs", "d.json", "w.wasm", "f.woff2", "LICENCE", "i.html", "js/x.map", ".map", "__init__.py"])
                    paths.insert(r.randint(0, len(paths)), gone)
                    if "/" not in gone and r.random() < 0.3 and not os.path.lexists(box.path(where, gone)) \
                            and not self.near(where, self.whole):
                        self.broken.append(where)
                        # a symbolic link to nothing is no file
                        os.symlink("nowhere", box.path(where, gone))
                if r.random() < 0.12 and paths:
                    paths.insert(r.randint(0, len(paths)), paths[0])
        i = r.randint(0, len(paths))
        d["script"] = self.items(paths[:i], "src", d["src"]["t"] != "sub")
        d["stylesheet"] = self.items(paths[i:], "href", d["src"]["t"] != "sub")
        return d

    def stale(self, where):
        """Old contents at a target directory."""
        r, box = self.r, self.box
        k = r.random()
        if k < 0.15:
            os.makedirs(box.path(where), exist_ok=True)
            return
        old = []
        for _ in range(r.choice([1, 2, 4])):
            p = r.choice(["old.js", "a.js", "a.js/was/dir", "js", "js/stale.js", "css/deep/x", ".hidden", "100%.js",
                          "x y.js/z", "deep/deep/deep", ".git/config"])
            if any(p == q or p.startswith(q + "/") or q.startswith(p + "/") for q in old):
                continue
            try:
                box.write(where + "/" + p, self.data())
            except OSError:      # a file stands where a directory is needed
                continue
            old.append(p)


def real(d, box):
    kw = {}
    if d["src"]["t"] == "href":
        kw["source"] = {"href": uncps(d["src"]["s"])}
    elif d["src"]["t"] == "sub":
        if d["pkg"]:
            kw["source"] = {"package": d["pkg"], "subdir": d["given"]}
        else:
            how, where = d["given"].split(":", 1)
            kw["source"] = {"subdir": where if how == "rel" else box.path(where)}
    for k in ("script", "stylesheet"):
        v = [{uncps(a["n"]): attr_value(a["v"]) for a in it} for it in d[k]]
        if v:
            kw[k] = v[0] if len(v) == 1 and d["m"] % 2 else v
    kw["meta"] = {"name": "vt-m", "content": str(d["m"])}
    if d["all"]:
        kw["all_files"] = True
    return HTMLDependency(uncps(d["name"]), uncps(d["v"]), **kw)


def hand(d):
    return {k: v for k, v in d.items() if k not in ("pkg", "given")}


class chdir:
    def __init__(self, to):
        self.to = to

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.to)

    def __exit__(self, *a):
        os.chdir(self.old)


# ----------------------------------------------------------- observations
def dict_line(d, obj, prefix, iv):
    kw = {"lib_prefix": prefix, "include_version": iv}
    if prefix == "lib":
        del kw["lib_prefix"]
    if iv:
        del kw["include_version"]

    def rec(fn):
        ok, v = guarded(fn)
        if not ok:
            return {"ok": False, "script": [], "sheet": [], "e": v}
        try:
            return {"ok": True, "script": [cps(str(u)) for u in v[0]], "sheet": [cps(str(u)) for u in v[1]], "e": ""}
        except TypeError:
            return {"ok": False, "script": [], "sheet": [], "e": "not-strings"}

    def by_dict():
        x = obj.as_dict(**kw)
        return [s["src"] for s in x["script"]], [s["href"] for s in x["stylesheet"]]

    def by_tags():
        t = [x for x in obj.as_html_tags(**kw) if isinstance(x, Tag)]
        return ([x.attrs["src"] for x in t if x.name == "script"], [x.attrs["href"] for x in t if x.name == "link"])

    def by_text():
        html = H.HTMLDocument(Tag("div", obj)).render(**kw)["html"]
        p = Urls2()
        p.feed(html)
        p.close()
        return p.script, p.sheet
    return {"in": {"d": d, "prefix": prefix, "iv": iv}, "q": "dict", "d": hand(d), "prefix": cps(prefix or ""),
            "iv": iv, "dict": rec(by_dict), "tags": rec(by_tags), "text": rec(by_text)}


class Urls2(HTMLParser):
    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.script, self.sheet = [], []

    def handle_starttag(self, tag, attrs):
        d = dict(attrs)
        if tag == "script" and d.get("src") is not None:
            self.script.append(d["src"])
        elif tag == "link" and d.get("href") is not None:
            self.sheet.append(d["href"])

    handle_startendtag = handle_starttag


def copy_line(box, d, obj, dest, iv, how="abs"):
    before = box.snap()

    def go():
        p = box.path(dest) if how == "abs" else dest
        if iv and how == "abs":
            obj.copy_to(p)
        else:
            obj.copy_to(p, include_version=iv)
    with chdir(box.root):
        ok, v = guarded(go)
    return {"in": {"d": d, "dest": dest, "iv": iv, "how": how}, "q": "copy", "d": hand(d), "iv": iv,
            "dest": box.segs(os.path.normpath(box.path(dest))), "before": before, "after": box.snap(),
            "out": {"ok": ok, "e": "" if ok else str(v)}}


def save_line(box, c, objs, how, file, libdir, iv, absfile, cwd):
    """objs: the real content for abstract content c."""
    before = box.snap()
    p = box.path(file)
    with chdir(box.path(cwd)):
        arg = p if absfile else os.path.relpath(p)
        kw = {}
        if libdir != "lib":
            kw["libdir"] = libdir
        if not iv:
            kw["include_version"] = iv

        def go():
            if how == "doc":
                x = H.HTMLDocument(*objs)
            elif how == "tag":
                x = objs[0]
            else:
                x = TagList(*objs)
            return x.save_html(arg, **kw)
        ok, v = guarded(go)
        rp = []
        if ok:
            ok2, rp = guarded(lambda: box.segs(os.path.realpath(v)))
            if not ok2:
                rp = []
    urls = []
    if os.path.isfile(p) and ok:
        with open(p, encoding="utf-8", errors="replace") as f:
            urls = urls_of(f.read())
    return {"in": {"c": c, "how": how, "file": file, "libdir": libdir, "iv": iv, "abs": absfile, "cwd": cwd},
            "q": "save", "c": strip(c), "libdir": cps(libdir or ""), "iv": iv,
            "file": box.segs(p), "root": [list(os.fsencode(s)) for s in box.root.split("/") if s],
            "ret": {"ok": ok, "p": rp, "e": "" if ok else str(v)}, "urls": [cps(u) for u in urls],
            "before": before, "after": box.snap()}


def strip(c):
    out = []
    for n in c:
        n = dict(n)
        if n["k"] == "dep":
            n["d"] = hand(n["d"])
        elif "c" in n:
            n["c"] = strip(n["c"])
        out.append(n)
    return out


def place(r, deps):
    """A tree around the dependency nodes (in document order)."""
    nodes = [{"k": "dep", "d": d} for d in deps]
    out = []
    for n in nodes:
        k = r.random()
        if k < 0.4:
            out.append(n)
        elif k < 0.7:
            out.append(TAG(r.choice(["div", "p", "span", "body"]), r.random() < 0.7, T("x"), n))
        elif k < 0.85:
            out.append({"k": "tgf", "lst": r.random() < 0.5, "r": False, "c": [TAG("div", True, n)]})
        else:
            out.append(TAG("div", True, dict(META), TAG("b", False, n), T("y")))
    if r.random() < 0.5:
        out.insert(0, T("hello"))
    return out


def renew(c, deps):
    """The same tree with the dependencies as they are now."""
    now = {d["m"]: d for d in deps}
    return [{**n, "d": now[n["d"]["m"]]} if n["k"] == "dep" else {**n, "c": renew(n["c"], deps)} if "c" in n else n
            for n in c]


# ----------------------------------------------------------- replay of histories
HOSTILE = [("a", "d", "b", "z"), ("x y.js", "n e", "é.css", "z%41"), ("100%.js", "%2e", "#.js", "?"),
           ("a&'\".js", "日本", "😀", ".h"), ("a%20b.js", "a b", "c+d;e.js", "a b.js"), ("[a].js", "\\d", "{b}", "a")]


def replay(r, hist):
    names = r.choice(HOSTILE)
    box = Box()
    lines = []
    try:
        seg = lambda s: names[s[0] - 97]
        path = lambda f: "/".join(seg(s) for s in f)
        box.write("src/" + names[0], b"\x01")
        box.write("src/" + names[1] + "/" + names[2], b"\x02")
        os.makedirs(box.path("out"))
        fa, fb = names[0], names[1] + "/" + names[2]
        name, ver = r.choice(NAMES), r.choice(VERS)
        sets = [([fa], [], False), ([fa], [fb], False), ([], [], True), ([fb, fa], [], True)]
        for e in hist:
            if e["op"] in ("edit", "stale"):
                where = "src" if e["op"] == "edit" else "out/lib/" + name + ("-" + ver if e["iv"] else "")
                p = where + "/" + path(e["f"])
                if os.path.isdir(box.path(p)):
                    shutil.rmtree(box.path(p))
                box.write(p, bytes([e["v"]]))
            elif e["op"] == "del":
                os.unlink(box.path("src", path(e["f"])))
            else:
                sc, sh, allf = sets[e["k"] - 1]
                if allf and not all(os.path.isfile(box.path("src", f)) for f in sc + sh):
                    sc, sh = [], []
                d = {"name": cps(name), "v": cps(ver), "m": 1, "meta": [], "script": [ditem({"src": f}) for f in sc],
                     "stylesheet": [ditem({"href": f}) for f in sh], "all": allf, "dir": [list(b"src")],
                     "src": {"t": "sub", "s": []}, "pkg": "", "given": "abs:src"}
                if r.random() < 0.5:
                    lines.append(copy_line(box, d, real(d, box), "out/lib", e["iv"], r.choice(["abs", "rel"])))
                else:
                    c = [{"k": "dep", "d": d}]
                    lines.append(save_line(box, c, [real(d, box)], r.choice(["doc", "list"]), "out/x.html", "lib",
                                           e["iv"], r.random() < 0.5, "."))
                lines[-1]["in"]["hist"] = hist
    finally:
        box.close()
    return lines


def random_case(r):
    box = Box()
    lines = []
    try:
        g = Gen(r, box)
        names = r.sample(NAMES, r.choice([1, 1, 2, 3]))
        deps = [g.dep(n, missing=r.choice([0, 0, 0.3])) for n in names]
        if r.random() < 0.25:
            deps.insert(r.randint(0, len(deps)), g.dep(r.choice(names), missing=0))
        outdir = r.choice(["out", "out/in ner", "out/é", "o%41"])
        os.makedirs(box.path(outdir), exist_ok=True)
        box.write(outdir + "/keep.txt", b"keep")
        cwd = r.choice([".", outdir])
        if any(d["given"].startswith("rel:") for d in deps):
            cwd = "."
        ok, objs = guarded(lambda: {d["m"]: real(d, box) for d in deps})
        if not ok:
            d = deps[0]
            return [{"in": {"deps": deps}, "q": "copy", "d": hand(d), "iv": True, "dest": [], "before": [], "after": [],
                     "out": {"ok": False, "e": "constructing-" + str(objs)}}]
        B._dep_override = lambda d: objs[d["m"]]     # also when a tagifiable expands later
        with chdir(box.root):
            for d in deps:
                if r.random() < 0.5:
                    lines.append(dict_line(d, objs[d["m"]], r.choice(
                        ["lib", None, "", "a/b", "p/", "/abs/x", "my lib", "é", "https://cdn/z"]), r.random() < 0.6))
        same = last = None
        for rnd in range(r.choice([1, 1, 2, 3])):
            if rnd and r.random() < 0.5:
                # another version, as long as the one before
                i = r.randrange(len(deps))
                v = [x for x in VERS + ["1.0.1", "1.1.0", "2.0.0", "1.1", "2.2"]
                     if len(x) == len(deps[i]["v"]) and cps(x) != deps[i]["v"]]
                if v:
                    deps[i] = dict(deps[i], v=cps(r.choice(v)))
                    with chdir(box.root):
                        ok, x = guarded(lambda: real(deps[i], box))
                    if ok:
                        objs[deps[i]["m"]] = x
                    else:
                        continue
            libdir = r.choice(LIBS)
            iv = r.random() < 0.6
            if same and r.random() < 0.6:
                libdir, iv = same[0], True
            if r.random() < 0.06:
                libdir = box.path("absl")
            destdir = os.path.normpath(os.path.join(outdir, libdir or ""))
            if rnd == 0 or r.random() < 0.5:
                for d in deps:
                    if r.random() < 0.5 and d["src"]["t"] == "sub":
                        g.stale(os.path.join(destdir if not os.path.isabs(destdir) else "absl", uncps(d["name"]) + (
                            "-" + uncps(d["v"]) if r.random() < 0.6 else "")))
                if r.random() < 0.3:
                    g.stale(os.path.join(outdir, "lib", "jq-0.0.0"))
                if r.random() < 0.3:
                    g.stale(os.path.join(outdir, "jq-9"))
            if rnd and r.random() < 0.6:
                # change the sources between saves
                d = r.choice(deps)
                if d["dir"]:
                    w = os.path.join(box.root, *(os.fsdecode(bytes(s)) for s in d["dir"]))
                    fs = sorted(os.path.join(a, f) for a, _, ff in os.walk(w) for f in ff)
                    if fs:
                        f = r.choice(fs)
                        if r.random() < 0.6 or any(x["all"] for x in deps):
                            with open(f, "wb") as h:
                                h.write(g.data())
                        else:
                            os.unlink(f)
            if r.random() < 0.3:
                d = r.choice(deps)
                lines.append(copy_line(box, d, objs[d["m"]], r.choice([outdir + "/lib", outdir, "fresh/dir", "fresh/.."]),
                                       r.random() < 0.6, r.choice(["abs", "rel"])))
                continue
            again = last and r.random() < 0.6
            how, c = (last[0], renew(last[1], deps)) if again else (r.choice(["doc", "tag", "list"]), place(r, deps))
            last = (how, c)
            if how == "tag" and not again:
                c = [TAG(r.choice(["div", "html", "body"]), True, *c)]
                if c[0]["n"] == cps("html"):
                    c[0]["c"] = [x for x in c[0]["c"]]
                last = (how, c)
            ok, kids = guarded(lambda: build_seq(c))
            if not ok:
                continue
            f = outdir + "/" + r.choice(["i.html", "a b.html", "é%.htm", "index"])
            if same and r.random() < 0.7:
                f = same[1]
            same = (libdir, f)
            lines.append(save_line(box, c, kids, how, f, libdir, iv, r.random() < 0.6 and cwd == "." or r.random() < 0.3,
                                   cwd))
    finally:
        B._dep_override = None
        box.close()
    return lines


def check(ctx):
    r = ctx.rng
    lines = []
    paths = ctx.model("MCUrl", consts={"MaxLen": ctx.pick(3, 4), "EmitOn": True},
                      invariants=["RoundTrip", "RawOnlyIfSafe", "Agree", "Emit"])
    if len(paths) > ctx.pick(2500, 20000):
        paths = r.sample(paths, ctx.pick(2500, 20000))
    for p in paths:
        s = uncps(p)
        if s.startswith("/"):
            s = "a" + s
        t = r.choice(["sub", "sub", "sub", "href", "none"])
        d = {"name": cps(r.choice(NAMES)), "v": cps(r.choice(VERS)), "m": 1, "meta": [], "all": False, "dir": [list(b"s")],
             "src": {"t": t, "s": cps(r.choice(["https://h/x", "https://h/x/", "/", "https://h//"])) if t == "href" else []}, "pkg": "",
             "given": "rel:s", "script": [ditem({"src": s})], "stylesheet": [ditem({"href": s})]}
        lines.append(dict_line(d, real(d, Dummy), r.choice(["lib", None, "a/b"]), r.random() < 0.6))
    hists = ctx.model("MCFiles", consts={"MaxOps": ctx.pick(3, 4), "EmitOn": True}, invariants=["WellFormed", "Emit"],
                      props=["CopyIsRight", "UrlsAgree"])
    n = ctx.pick(1200, 12000)
    if len(hists) > n:
        hists = r.sample(hists, n)
    for h in hists:
        lines += replay(r, h)
    for _ in range(ctx.pick(700, 8000)):
        lines += random_case(r)
    ctx.judge("JudgeFiles", "FilesVerdict", lines, chunk=6000)
    ctx.assumptions += [
        "names and libdir values contain no '%', '#' or '?': the URL is literally prefix/name, so for those the two "
        "sentences of the property contradict each other",
        "whether the path below a URL source is percent-encoded is left open",
        "a missing file under all_files, and targets that are regular files or links, are outside the property"]


class Dummy:
    @staticmethod
    def path(p):
        return "/nonexistent/" + p
