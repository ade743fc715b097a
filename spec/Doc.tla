-------------------------------- MODULE Doc --------------------------------
(* Documents (C09, C11, C13): the tree HTMLDocument must render, and the    *)
(* markup of dependencies.  A dependency d is                               *)
(*  [name, v, m, src |-> [t, s], script, stylesheet, meta, head]            *)
(* with items as attribute lists <<[n, v |-> [t, s]]>> and head a list of   *)
(* nodes (already the HTML() of a plain string given as head).              *)
EXTENDS Layout, Attrs, Deps

TagN(nm, as, c) == [k |-> "tag", n |-> nm, ws |-> TRUE, a |-> as, c |-> c]
Named(c, nm) == c.k = "tag" /\ c.n = nm
PlainAttr(nm, v) == [n |-> nm, v |-> v, h |-> FALSE]

HeadOf(d) == IF "head" \in DOMAIN d THEN ExpandSeq(NormSeq(d.head)) ELSE <<>>

\* dependencies in document order, including those inside a dependency's head
RECURSIVE AllDeps(_)
AllDeps(c) ==
  FoldLeft(LAMBDA a, n : IF n.k = "dep" THEN Append(a, n.d) \o AllDeps(HeadOf(n.d))
                         ELSE IF n.k = "tag" THEN a \o AllDeps(n.c) ELSE a, <<>>, c)

---------------------------------------------------------------------------
UrlJoin(a, b) == IF a = <<>> THEN b
                 ELSE IF a[Len(a)] = SLASH THEN a \o b ELSE a \o <<SLASH>> \o b
DirName(d, iv) == IF iv THEN d.name \o <<HYPHEN>> \o d.v ELSE d.name
\* prefix: <<>> for None / ""
BaseUrl(d, prefix, iv) ==
  CASE d.src.t = "none" -> <<>>
    [] d.src.t = "href" -> d.src.s
    [] OTHER -> IF prefix = <<>> THEN DirName(d, iv) ELSE UrlJoin(prefix, DirName(d, iv))

ItemAttrs(item, key, base) ==
  UpdateWith(<<>>, ArgPairs(<< [i \in 1..Len(item) |->
     IF item[i].n = key THEN [item[i] EXCEPT !.v = [t |-> "str", s |-> UrlJoin(base, item[i].v.s)]]
     ELSE item[i]] >>))
WithRel(item) == IF \E i \in 1..Len(item) : item[i].n = S("rel") THEN item
                 ELSE Append(item, [n |-> S("rel"), v |-> [t |-> "str", s |-> S("stylesheet")]])

\* meta, link, script and head markup of one dependency
DepNodes(d, prefix, iv) ==
  LET b == BaseUrl(d, prefix, iv)
      meta == [i \in 1..Len(d.meta) |-> TagN(S("meta"), ItemAttrs(d.meta[i], <<>>, b), <<>>)]
      link == [i \in 1..Len(d.stylesheet) |->
                 TagN(S("link"), ItemAttrs(WithRel(d.stylesheet[i]), S("href"), b), <<>>)]
      scr == [i \in 1..Len(d.script) |-> TagN(S("script"), ItemAttrs(d.script[i], S("src"), b), <<>>)]
  IN meta \o link \o scr \o HeadOf(d)

Listing(deps) ==
  IF deps = <<>> THEN <<>>
  ELSE << TagN(S("script"), <<PlainAttr(S("type"), S("application/html-dependencies"))>>,
               << [k |-> "text", s |-> Join([i \in 1..Len(deps) |->
                     deps[i].name \o S("[") \o deps[i].v \o S("]")], <<SEMI>>)] >>) >>

\* the listing and every dependency's markup, as HTMLDocument puts it in <head>
HeadMarkup(deps, prefix, iv) ==
  Listing(deps) \o Cat([i \in 1..Len(deps) |-> DepNodes(deps[i], prefix, iv)])

---------------------------------------------------------------------------
Ready(as) == [i \in 1..Len(as) |-> IF "p" \in DOMAIN as[i] THEN as[i]
   ELSE [n |-> as[i].n, p |-> IF as[i].h THEN as[i].v ELSE PatA(as[i].v), h |-> as[i].h]]

HtmlTag(c, kw) ==
  IF Len(c) = 1 /\ Named(c[1], S("html"))
  THEN [c[1] EXCEPT !.a = UpdateWith(Ready(@), ArgPairs(<<kw>>))]
  ELSE LET body == IF Len(c) = 1 /\ Named(c[1], S("body")) THEN c[1] ELSE TagN(S("body"), <<>>, c)
       IN TagN(S("html"), UpdateWith(<<>>, ArgPairs(<<kw>>)), << TagN(S("head"), <<>>, <<>>), body >>)

HeadIndex(c) == SelectInSeq(c, LAMBDA n : Named(n, S("head")))

DocDeps(c, kw) == Resolve(AllDeps(HtmlTag(c, kw).c))

DocTree(c, kw, prefix, iv) ==
  LET h == HtmlTag(c, kw)
      kids == IF HeadIndex(h.c) = 0 THEN << TagN(S("head"), <<>>, <<>>) >> \o h.c ELSE h.c
      i == HeadIndex(kids)
      meta == TagN(S("meta"), <<PlainAttr(S("charset"), S("utf-8"))>>, <<>>)
      head == [kids[i] EXCEPT !.c = <<meta>> \o @ \o HeadMarkup(DocDeps(c, kw), prefix, iv)]
  IN [h EXCEPT !.c = [kids EXCEPT ![i] = head]]

DocType == S("<!DOCTYPE html>") \o <<LF>>
\* does markup s render the sibling list / the tag
RendersList(c, s) == IF ValidNest(c) THEN Matches(DeclList(c, 0, <<LF>>, TRUE), s)
                     ELSE GapOK(c, s, 0, <<LF>>)
RendersTag(t, s) == IF ValidNest(<<t>>) THEN Matches(DeclTag(t, 0, <<LF>>), s)
                    ELSE GapOK(<<t>>, s, 0, <<LF>>)
RendersDoc(t, s) == /\ Len(s) > Len(DocType) /\ SubSeq(s, 1, Len(DocType)) = DocType
                    /\ RendersTag(t, SubSeq(s, Len(DocType) + 1, Len(s)))
=============================================================================
