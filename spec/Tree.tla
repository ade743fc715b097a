------------------------------- MODULE Tree -------------------------------
(* Abstract tag trees.  A node is a record with field k:                    *)
(*  "tag"  : n name, ws whitespace flag, a attributes <<[n,v,h]>>, c nodes   *)
(*  "text" : s plain string          "num"  : s the str() of a number        *)
(*  "html" : s marked HTML()         "repr" : s result of _repr_html_()      *)
(*  "meta" : plain MetadataNode      "dep"  : HTMLDependency d               *)
(*  "tgf"  : object with tagify(); lst: returns a TagList; c its expansion   *)
(*           (already normalised nodes); r: also has _repr_html_() = s       *)
(*  "expr" : e a concatenation expression (see ExprVal)                      *)
(*  "list" : c a nested list/tuple/TagList of nodes;  "none" : None          *)
EXTENDS Text

VoidNames == {S(x) : x \in {"area", "base", "br", "col", "command", "embed", "hr",
   "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"}}
RawNames == {S(x) : x \in {"script", "style"}}

IsTag(n) == n.k = "tag"
IsMeta(n) == n.k \in {"meta", "dep"}
IsBlock(n) == n.k = "tag" /\ n.ws
IsVoid(n) == n.n \in VoidNames

\* ---- flattening of supplied children (lists spliced, None dropped) -------
RECURSIVE Flat(_)
Flat(c) ==
  IF \A i \in 1..Len(c) : c[i].k \notin {"list", "none", "num"} THEN c
  ELSE FoldLeft(LAMBDA a, n :
         IF n.k = "list" THEN a \o Flat(n.c)
         ELSE IF n.k = "none" THEN a
         ELSE IF n.k = "num" THEN Append(a, [k |-> "text", s |-> n.s])
         ELSE Append(a, n), <<>>, c)

\* ---- normalise a whole tree: children flattened at every level -----------
RECURSIVE NormSeq(_)
NormNode(n) == IF n.k = "tag" THEN [n EXCEPT !.c = NormSeq(n.c)]
               ELSE IF n.k = "tgf" THEN [n EXCEPT !.c = NormSeq(n.c)]
               ELSE n
NormSeq(c) == LET f == Flat(c) IN [i \in 1..Len(f) |-> NormNode(f[i])]

\* ---- replace tagifiable objects by their expansion, spliced in place -----
RECURSIVE ExpandSeq(_)
ExpandNode(n) ==
  IF n.k = "tag" THEN << [n EXCEPT !.c = ExpandSeq(n.c)] >>
  ELSE IF n.k = "tgf" THEN ExpandSeq(n.c)
  ELSE <<n>>
ExpandSeq(c) == FoldLeft(LAMBDA a, n : a \o ExpandNode(n), <<>>, c)

RECURSIVE HasTgf(_)
HasTgf(c) == \E i \in 1..Len(c) :
   \/ c[i].k = "tgf"
   \/ c[i].k = "tag" /\ HasTgf(c[i].c)

\* an un-expanded object that is not self-rendering
RECURSIVE HasPureTgf(_)
HasPureTgf(c) == \E i \in 1..Len(c) :
   \/ c[i].k = "tgf" /\ ~c[i].r
   \/ c[i].k = "tag" /\ HasPureTgf(c[i].c)

\* ---- erase metadata ------------------------------------------------------
RECURSIVE EraseSeq(_)
EraseNode(n) == IF n.k = "tag" THEN [n EXCEPT !.c = EraseSeq(n.c)] ELSE n
EraseSeq(c) ==
  LET f == SelectSeq(c, LAMBDA n : ~IsMeta(n))
  IN [i \in 1..Len(f) |-> EraseNode(f[i])]

Vis(c) == SelectSeq(c, LAMBDA n : ~IsMeta(n))

RECURSIVE HasBlock(_)
HasBlock(c) == \E i \in 1..Len(c) : c[i].k = "tag" /\ (c[i].ws \/ HasBlock(c[i].c))
\* inline tags contain no block tags
RECURSIVE ValidNest(_)
ValidNest(c) == \A i \in 1..Len(c) : c[i].k = "tag" =>
    /\ (~c[i].ws => ~HasBlock(c[i].c))
    /\ ValidNest(c[i].c)

RECURSIVE CountNodes(_)
CountNodes(c) == FoldLeft(LAMBDA a, n : a + 1 + (IF n.k = "tag" THEN CountNodes(n.c) ELSE 0), 0, c)

---------------------------------------------------------------------------
(* Pieces of markup (as patterns).                                          *)
\* attributes: [n, v, h]  or  [n, p, h] with a ready pattern p (spec/Attrs.tla)
AttrPat(a) == <<SPC>> \o a.n \o <<EQ, DQ>>
              \o (IF "p" \in DOMAIN a THEN a.p ELSE IF a.h THEN a.v ELSE PatA(a.v))
              \o <<DQ>>
AttrsPat(as) == FoldLeft(LAMBDA x, a : x \o AttrPat(a), <<>>, as)
OpenHead(t) == <<LT>> \o t.n \o AttrsPat(t.a)
OpenPat(t) == OpenHead(t) \o <<GT>>
VoidPat(t) == OpenHead(t) \o <<SLASH, GT>>
ClosePat(t) == <<LT, SLASH>> \o t.n \o <<GT>>
IsRawTag(t) == t.n \in RawNames
\* Concatenation expressions over plain strings, HTML() and other objects:
\* [t |-> "str"|"html"|"obj", s] or [t |-> "cat", l, r].  The value is HTML as
\* soon as one operand is; every plain operand is escaped exactly once.
RECURSIVE ExprVal(_)
ExprVal(e) ==
  IF e.t = "cat"
  THEN LET a == ExprVal(e.l)
           b == ExprVal(e.r)
       IN [h |-> a.h \/ b.h, p |-> a.p \o b.p]
  ELSE [h |-> e.t = "html", p |-> IF e.t = "html" THEN e.s ELSE PatT(e.s)]
Abs(p) == [i \in 1..Len(p) |-> IF p[i] < 0 THEN -p[i] ELSE p[i]]

\* a leaf; raw: directly inside <script>/<style>
LeafPat(n, raw) ==
  IF n.k = "text" THEN (IF raw THEN n.s ELSE PatT(n.s))
  ELSE IF n.k = "expr"
  THEN LET v == ExprVal(n.e) IN IF raw /\ ~v.h THEN Abs(v.p) ELSE v.p
  ELSE n.s

RECURSIVE InlinePat(_, _)
InlineSeq(c, raw) == FoldLeft(LAMBDA a, n : a \o InlinePat(n, raw), <<>>, c)
\* the exact concatenation of open tags, content and close tags
InlinePat(n, raw) ==
  IF IsMeta(n) THEN <<>>
  ELSE IF n.k # "tag" THEN LeafPat(n, raw)
  ELSE IF Vis(n.c) = <<>> /\ IsVoid(n) THEN VoidPat(n)
  ELSE OpenPat(n) \o InlineSeq(n.c, IsRawTag(n)) \o ClosePat(n)
=============================================================================
