------------------------------ MODULE TagFns ------------------------------
(* The tag-function tables and what a call of a tag function creates (C19). *)
(* A call is [m |-> module, f |-> function, ws |-> explicit _add_ws or       *)
(* "default", bad |-> the _add_ws value is not a boolean].                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

HtmlFns == {
    "html", "base", "head", "link", "meta", "style", "title", "body",
    "address", "article", "aside", "footer", "header", "h1", "h2", "h3",
    "h4", "h5", "h6", "main", "nav", "section", "blockquote", "dd", "div",
    "dl", "dt", "figcaption", "figure", "hr", "li", "menu", "ol", "p",
    "pre", "ul", "a", "abbr", "b", "bdi", "bdo", "br", "cite", "code",
    "data", "dfn", "em", "i", "kbd", "mark", "q", "rp", "rt", "ruby", "s",
    "samp", "small", "span", "strong", "sub", "sup", "time", "u", "var",
    "wbr", "area", "audio", "img", "map", "track", "video", "embed",
    "iframe", "object", "param", "picture", "portal", "source", "svg",
    "math", "canvas", "noscript", "script", "ins", "caption", "col",
    "colgroup", "table", "tbody", "td", "tfoot", "th", "thead", "tr",
    "button", "datalist", "fieldset", "form", "input", "label", "legend",
    "meter", "optgroup", "option", "output", "progress", "select",
    "textarea", "details", "dialog", "summary", "slot", "template"
  }
SvgFns == {
    "a", "animate", "animateMotion", "animateTransform", "circle",
    "clipPath", "defs", "desc", "discard", "ellipse", "feBlend",
    "feColorMatrix", "feComponentTransfer", "feComposite",
    "feConvolveMatrix", "feDiffuseLighting", "feDisplacementMap",
    "feDistantLight", "feDropShadow", "feFlood", "feFuncA", "feFuncB",
    "feFuncG", "feFuncR", "feGaussianBlur", "feImage", "feMerge",
    "feMergeNode", "feMorphology", "feOffset", "fePointLight",
    "feSpecularLighting", "feSpotLight", "feTile", "feTurbulence", "filter",
    "foreignObject", "g", "hatch", "hatchpath", "image", "line",
    "linearGradient", "marker", "mask", "metadata", "mpath", "path",
    "pattern", "polygon", "polyline", "radialGradient", "rect", "script",
    "set", "stop", "style", "svg", "switch", "symbol", "text", "textPath",
    "title", "tspan", "use", "view"
  }
TopFns == {
    "a", "br", "code", "div", "em", "h1", "h2", "h3", "h4", "h5", "h6",
    "hr", "img", "p", "pre", "span", "strong"
  }
\* the project's classification (scripts/generate_tags.py)
InlineNames == {
    "a", "abbr", "acronym", "audio", "b", "bdi", "bdo", "big", "br",
    "button", "canvas", "cite", "code", "data", "datalist", "del", "dfn",
    "em", "embed", "i", "iframe", "img", "input", "ins", "kbd", "label",
    "map", "mark", "meter", "noscript", "object", "output", "picture",
    "pre", "progress", "q", "ruby", "s", "samp", "select", "slot", "small",
    "span", "strong", "sub", "sup", "svg", "template", "textarea", "time",
    "tt", "u", "var", "video", "wbr"
  }
Modules == {"tags", "svg", "top"}
Fns(m) == CASE m = "tags" -> HtmlFns [] m = "svg" -> SvgFns [] m = "top" -> TopFns

\* the element created: the function's own name, without the underscore a
\* Python keyword needs
ElementOf(f) == CASE f = "del_" -> "del" [] OTHER -> f
DefaultWs(inline, f) == ElementOf(f) \notin inline
WsOf(inline, c) == IF c.ws = "default" THEN DefaultWs(inline, c.f) ELSE c.ws = "true"
Created(inline, c, attrs, kids) ==
  [name |-> ElementOf(c.f), ws |-> WsOf(inline, c), attrs |-> attrs, kids |-> kids]
=============================================================================
