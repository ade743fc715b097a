"""What foreign code may do in the middle of an operation of the library: use the library itself,
also in ways that fail.  Nothing of it may be seen in the operation it interrupts."""
import sys

from .core import import_library

H = import_library()
from htmltools import HTML, HTMLDependency, HTMLDocument, Tag, TagList, head_content  # noqa: E402

_inside = False


class Oops(Exception):
    pass


class Boom:
    """Fails when it is rendered."""

    def _repr_html_(self):
        raise Oops


class TgfBoom:
    """Fails when it is expanded."""

    def tagify(self):
        raise Oops


class Unexpanded:
    """Cannot be rendered as it is."""

    def tagify(self):
        return Tag("u", "late")


def dep(name="disturb", **kw):
    return HTMLDependency(name, "9.9", source={"href": "https://x.org/d"}, script={"src": "d.js"}, **kw)


def some(*extra):
    return Tag("section", {"id": "disturb"}, Tag("pre", "a\n", Tag("b", "c")), Tag("span", "x", _add_ws=False),
               Tag("script", "a<b"), HTML("<i>"), dep(), [Tag("p", "t"), None], *extra)


def render():
    str(some())


def indented():
    TagList(some(), "<").get_html_string(3, "\r\n")


def document():
    HTMLDocument(some(head_content(Tag("title", "disturb"))), lang="xx").render(lib_prefix="dd", include_version=False)


def json_mode():
    old = H.html_dependency_render_mode
    H.html_dependency_render_mode = "json"
    try:
        str(TagList(some(), dep(head=[Tag("title", "q")])))
    finally:
        H.html_dependency_render_mode = old


def expand():
    TagList(some(Unexpanded()), Unexpanded()).tagify().get_dependencies()


def change():
    t = some()
    t.add_class("k").add_style("a:b;").attrs.update(x=HTML("y"))
    t.append("z", [Tag("q")], None)
    t.remove_class("k")


def block():
    old, sys.displayhook = sys.displayhook, lambda x: None
    try:
        with Tag("div") as t:
            sys.displayhook("shown")
        str(t)
    finally:
        sys.displayhook = old


def jsx():
    from htmltools._jsx import jsx_tag_create
    str(jsx_tag_create("Dist")(Tag("i", "x", id="j"), dep(), "t", p=Tag("b", "x"), q={"a": [1, True]}))


def fail_render():
    str(some(Tag("pre", Tag("i", Boom(), _add_ws=False))))


def fail_raw():
    str(some(Tag("script", "s<", Tag("style", "t", Boom()))))


def fail_inline():
    str(some(Tag("span", Tag("i", "x", Tag("em", Boom(), _add_ws=False), _add_ws=False), _add_ws=False)))


def fail_body():
    HTMLDocument(Tag("html", Tag("head", Tag("title", Boom())), Tag("body", some())), lang="yy").render()


def fail_string():
    Tag("div", "x", Tag("script", "s"), Unexpanded()).get_html_string(1)


def fail_expand():
    some(Tag("p", TgfBoom())).tagify()


def fail_document():
    HTMLDocument(some(dep(head=[Tag("title", Boom())])), Tag("html", Tag("head"), Tag("body", TgfBoom()))).render()


def fail_json():
    old = H.html_dependency_render_mode
    H.html_dependency_render_mode = "json"
    try:
        str(TagList(some(), dep(head=[Boom()]), Boom()))
    finally:
        H.html_dependency_render_mode = old


def fail_block():
    old, sys.displayhook = sys.displayhook, lambda x: None
    try:
        with Tag("div"):
            sys.displayhook("shown")
            raise Oops
    finally:
        sys.displayhook = old


def fail_build():
    t = TagList("a")
    t.extend(["b", object()])


def fail_attrs():
    Tag("div", {"a": "1"}, b=object(), c={1: 2}).attrs.update({"z": [object()]})


def fail_dep():
    HTMLDependency("n", "1", script={"no-src": "x"})


def fail_jsx():
    from htmltools._jsx import jsx_tag_create
    str(jsx_tag_create("Dist")(Boom(), Tag("b", Boom()), p=Tag("b", Boom()), style="a:b"))


WAYS = [render, indented, document, json_mode, expand, change, block, jsx, fail_render, fail_raw, fail_inline, fail_body, fail_string, fail_expand,
        fail_document, fail_json, fail_block, fail_build, fail_attrs, fail_dep, fail_jsx]
BY_NAME = {f.__name__: f for f in WAYS}


def disturb(k):
    global _inside
    if _inside:
        return
    _inside = True
    try:
        WAYS[k % len(WAYS)]()
    except Exception:
        pass
    finally:
        _inside = False
