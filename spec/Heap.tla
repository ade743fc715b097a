-------------------------------- MODULE Heap -------------------------------
(* The object heap behind trees (C08): objects with identity, what a        *)
(* structure is worth (Value), and which objects it owns (Reach).           *)
(*  tag  [n, ws, at, ch]   at: attribute map object, ch: child list object  *)
(*  attrs [a |-> <<[n,v,h]>>]     list [c |-> <<ids>>]                      *)
(*  dep  [n, v, f (other fields, as text), hd (head list or 0), vl, fl: v   *)
(*       and f up to spellings that mean the same (1.0 = 1.0.0; key order)] *)
(*  text [s]  html [s]   meta [eq]: eq = it defines ==                      *)
(*  obj  [tgf, kept]: foreign object; tgf = has tagify(); kept: the tag or  *)
(*       list it keeps (0 if none)    doc [c, kw]: an HTMLDocument of objects c  *)
EXTENDS Text

Kids(o) == CASE o.k = "tag" -> {o.at, o.ch}
             [] o.k = "list" -> {o.c[i] : i \in 1..Len(o.c)}
             [] o.k = "dep" -> {o.hd} \ {0}
             [] o.k = "doc" -> {o.c[i] : i \in 1..Len(o.c)}
             [] OTHER -> {}
RECURSIVE Reach(_, _)
Reach(h, i) == {i} \cup UNION {Reach(h, j) : j \in Kids(h[i])}

Owned == {"tag", "attrs", "list", "dep", "meta"}
Own(h, i) == {j \in Reach(h, i) : h[j].k \in Owned}
NeedsExpansion(h, i) == \E j \in Reach(h, i) : h[j].k = "obj" /\ h[j].tgf
ById(h, i) == \E j \in Reach(h, i) : h[j].k = "meta" /\ ~h[j].eq

RECURSIVE Value(_, _)
Value(h, i) ==
  LET o == h[i] IN
  CASE o.k = "tag" -> [k |-> "tag", n |-> o.n, ws |-> o.ws, a |-> h[o.at].a, c |-> Value(h, o.ch).c]
    [] o.k = "attrs" -> o
    [] o.k = "list" -> [k |-> "list", c |-> [j \in 1..Len(o.c) |-> Value(h, o.c[j])]]
    [] o.k = "dep" -> [k |-> "dep", n |-> o.n, v |-> o.v, f |-> o.f, vl |-> o.vl, fl |-> o.fl,
                       hd |-> IF o.hd = 0 THEN <<>> ELSE <<Value(h, o.hd)>>]
    [] o.k = "text" -> [k |-> "text", s |-> o.s]
    [] o.k = "html" -> [k |-> "html", s |-> o.s]
    [] o.k = "meta" -> IF o.eq THEN [k |-> "meta", id |-> 0] ELSE [k |-> "meta", id |-> i]
    [] o.k = "doc" -> [k |-> "doc", kw |-> o.kw, c |-> [j \in 1..Len(o.c) |-> Value(h, o.c[j])]]
    [] OTHER -> [k |-> "obj", id |-> i]
\* what tagify() must preserve: metadata without == is copied
RECURSIVE Shape(_)
Shape(v) ==
  CASE v.k = "tag" -> [v EXCEPT !.c = [j \in 1..Len(v.c) |-> Shape(v.c[j])]]
    [] v.k = "list" -> [v EXCEPT !.c = [j \in 1..Len(v.c) |-> Shape(v.c[j])]]
    [] v.k = "dep" -> [v EXCEPT !.hd = [j \in 1..Len(v.hd) |-> Shape(v.hd[j])]]
    [] v.k = "meta" -> [k |-> "meta", id |-> 0]
    [] OTHER -> v

\* coarser than ==: what must make two objects unequal.  Attribute order, and
\* whether a string is marked HTML(), are left open; foreign objects and
\* metadata decide for themselves.
RECURSIVE Loose(_)
Loose(v) ==
  CASE v.k = "tag" -> [k |-> "tag", n |-> v.n, ws |-> v.ws,
                       a |-> {<<v.a[j].n, v.a[j].v>> : j \in 1..Len(v.a)},
                       c |-> [j \in 1..Len(v.c) |-> Loose(v.c[j])]]
    [] v.k = "list" -> [k |-> "list", c |-> [j \in 1..Len(v.c) |-> Loose(v.c[j])]]
    [] v.k = "dep" -> [k |-> "dep", n |-> v.n, v |-> v.vl, f |-> v.fl, hd |-> [j \in 1..Len(v.hd) |-> Loose(v.hd[j])]]
    [] v.k \in {"text", "html"} -> [k |-> "text", s |-> v.s]
    [] OTHER -> [k |-> "other"]
MustEqual(h, i, j) == Value(h, i) = Value(h, j)
MustDiffer(h, i, j) == Loose(Value(h, i)) # Loose(Value(h, j))
=============================================================================
