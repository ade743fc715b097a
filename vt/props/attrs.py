"""Shared recorder for attribute histories (C15, C16)."""
import copy
import json
from collections import OrderedDict

from ..build import (H, HTML, StrSub, Tag, TagList, apply_attr, attr_value, build_seq, ctor_tag,
                     pairs)
from ..core import cps, guarded, uncps


class DictSub(dict):
    pass


def obs_attrs(d):
    out = []
    for k, v in d.items():
        if isinstance(v, HTML):
            out.append({"n": cps(k), "v": cps(v.as_string()), "h": True})
        elif isinstance(v, str):
            out.append({"n": cps(k), "v": cps(v), "h": False})
        else:
            out.append({"n": cps(k), "v": cps("?" + type(v).__name__), "h": False})
    return out


def record(hist, name="div"):
    """Run a history; every event gets its result and the attributes after it."""
    tag = Tag(name)
    ev = []
    for o in hist:
        if o["op"] in ("ctor", "attrdict", "update", "consolidate"):
            # one mapping has each name once, the last value in the first place
            o = {**o, "args": [list({json.dumps(p["n"]): p for p in a}.values()) for a in o["args"]]}
        e = dict(o)
        op = o["op"]
        if op in ("ctor", "attrdict"):
            def go():
                if op == "attrdict":
                    from htmltools._core import TagAttrDict
                    args = [pairs(a) for a in o["args"]]
                    kw = args.pop() if o.get("kw") and args else {}
                    t = Tag(name)
                    t.attrs = TagAttrDict(*args, **kw)
                    return t
                return ctor_tag(name, o, build_seq(o.get("kids", [])))
            ok, v = guarded(go)
            if ok:
                tag = v
            e["op"] = "ctor"
        elif op == "has_class":
            ok, v = guarded(lambda: tag.has_class(attr_value(o["v"])))
            e["bool"] = bool(v) if ok else False
        elif op == "remove_class":
            ok, v = guarded(lambda: tag.remove_class(attr_value(o["v"])))
            e["self"] = ok and v is tag
        elif op == "css":
            args = {uncps(a["n"]): css_val(a["v"]) for a in o["args"]}
            col = uncps(o["collapse"])
            ok, v = guarded(lambda: H.css(col, **args) if col else H.css(**args))
            e["none"] = ok and v is None
            e["str"] = cps(v) if ok and isinstance(v, str) else []
            e["accepted"] = False
            if ok and isinstance(v, str):
                e["accepted"] = guarded(lambda: Tag("p").add_style(v))[0]
        elif op == "consolidate":
            ok, v = guarded(lambda: consolidate(o, name))
            e.update(v if ok else {"cattrs": [], "plain": True, "kids": True, "rebuilt": [], "eq": True})
        else:
            ok, v = guarded(lambda: apply_attr(tag, o))
            e["self"] = ok and v is tag
        e["res"] = {"ok": ok, "e": "" if ok else str(v)}
        e["obs"] = obs_attrs(tag.attrs)
        ev.append(e)
    return {"in": {"name": name, "hist": hist}, "q": "history", "ev": ev}


def css_val(v):
    if v["t"] == "none":
        return None
    s = uncps(v["s"])
    if v["t"] == "num":
        from ..build import num_of
        return s == "True" if s in ("True", "False") else num_of(s)
    return s


def consolidate(o, name):
    from htmltools._core import TagAttrDict
    args = [pairs(a) for a in o["args"]]
    kw = args.pop() if o.get("kw") and args else {}
    # mappings of other kinds, such as the attributes of another tag
    kind = [dict, dict, OrderedDict, TagAttrDict, lambda a: Tag("u", a).attrs, DictSub]
    args = [kind[(len(a) * 3 + i + len(o["kids"])) % len(kind)](a) for i, a in enumerate(args)]
    kids = build_seq(o["kids"])
    # interleave dict and non-dict arguments
    mixed, ks = [], list(kids)
    for a in args:
        mixed.append(a)
        if ks:
            mixed.append(ks.pop(0))
    mixed += ks
    before = copy.deepcopy([m for m in mixed if isinstance(m, dict)])
    attrs, children = H.consolidate_attrs(*mixed, **kw)
    same = (isinstance(children, list) and len(children) == len(kids)
            and all(a is b for a, b in zip(children, kids))
            and before == [m for m in mixed if isinstance(m, dict)])
    direct = Tag(name, *mixed, **kw)
    rebuilt = Tag(name, attrs, *children)
    rebuilt2 = Tag(name, *children, **attrs)
    return {"cattrs": obs_attrs(attrs), "plain": type(attrs) is dict, "kids": same,
            "rebuilt": obs_attrs(rebuilt.attrs),
            "eq": bool(rebuilt == direct) and bool(rebuilt2 == direct)
            and rebuilt.get_html_string() == direct.get_html_string()}
