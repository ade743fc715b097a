-------------------------------- MODULE Jsx --------------------------------
(* JSX components and the React.createElement expression that mirrors them  *)
(* (C20).                                                                   *)
(* Nodes:  [k |-> "jsx", n, p: <<[n (raw name), v]>>, c], [k |-> "tag", n,   *)
(*   a: <<[n, v]>>, c], text s, num s, expr s (a jsx() string), none,        *)
(*   list c, tgf c (expands to c), meta m dep (dep: it is a dependency).     *)
(* Prop values: null, true, false, num s, str s, expr s, arr c, obj e,       *)
(*   css d (a CSS string), or a tag/jsx/tgf node.                            *)
(* Expressions as read from the JavaScript text: [t |-> "el", comp, n, p, c],*)
(*   str r (raw text between the quotes), num s, null, true, false, expr s,  *)
(*   arr c, obj e.                                                           *)
EXTENDS Text

Cat2(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Map1(s, f(_)) == [i \in 1..Len(s) |-> f(s[i])]

\* one trailing underscore removed, the others become hyphens
PropName(n) ==
  LET m == IF n # <<>> /\ n[Len(n)] = 95 THEN SubSeq(n, 1, Len(n) - 1) ELSE n
  IN [i \in 1..Len(m) |-> IF m[i] = 95 THEN 45 ELSE m[i]]

\* ---------------------------------------------------------------- children
\* what the children amount to: expansions and lists spliced, None and
\* metadata gone, numbers as text
RECURSIVE Exp(_)
Exp(c) == Cat2([i \in 1..Len(c) |->
  CASE c[i].k \in {"none", "meta"} -> <<>>
    [] c[i].k \in {"list", "tgf"} -> Exp(c[i].c)
    [] c[i].k = "num" -> << [k |-> "text", s |-> c[i].s] >>
    [] OTHER -> << c[i] >>])

\* every metadata node that must be carried
RECURSIVE Metas(_)
Metas(n) ==
  CASE n.k = "meta" -> {[m |-> n.m, nm |-> n.nm, dep |-> n.dep]}
    [] n.k \in {"list", "tgf", "tag"} -> UNION {Metas(n.c[i]) : i \in 1..Len(n.c)}
    [] n.k = "jsx" -> UNION {Metas(n.c[i]) : i \in 1..Len(n.c)}
                      \cup UNION {Metas(n.p[i].v) : i \in 1..Len(n.p)}
    [] OTHER -> {}

\* ---------------------------------------------------------------- literals
HexDigit(ch) == IF ch \in 48..57 THEN ch - 48 ELSE IF ch \in 65..70 THEN ch - 55 ELSE IF ch \in 97..102 THEN ch - 87 ELSE -1
Simple(ch) == CASE ch = 110 -> 10 [] ch = 116 -> 9 [] ch = 114 -> 13 [] ch = 98 -> 8 [] ch = 102 -> 12
                [] ch = 118 -> 11 [] ch = 48 -> 0 [] OTHER -> ch
\* the text a double-quoted JavaScript literal denotes
UnqStep(st, ch) ==
  IF ~st.ok THEN st
  ELSE CASE st.mode = 0 -> IF ch = 92 THEN [st EXCEPT !.mode = 1]
                           ELSE IF ch \in {10, 13, 34} THEN [st EXCEPT !.ok = FALSE]
                           ELSE [st EXCEPT !.out = Append(@, ch)]
         [] st.mode = 1 -> IF ch = 117 THEN [st EXCEPT !.mode = 5, !.acc = 0]
                           ELSE IF ch = 120 THEN [st EXCEPT !.mode = 3, !.acc = 0]
                           ELSE [st EXCEPT !.mode = 0, !.out = Append(@, Simple(ch))]
         [] OTHER -> IF HexDigit(ch) < 0 THEN [st EXCEPT !.ok = FALSE]
                     ELSE LET a == st.acc * 16 + HexDigit(ch)
                          IN IF st.mode = 2 THEN [st EXCEPT !.mode = 0, !.out = Append(@, a)]
                             ELSE [st EXCEPT !.mode = @ - 1, !.acc = a]
\* surrogate pairs stand for one character
Pairs(s) == FoldLeft(LAMBDA a, ch :
   IF ch \in 56320..57343 /\ a # <<>> /\ a[Len(a)] \in 55296..56319
   THEN [a EXCEPT ![Len(a)] = 65536 + (@ - 55296) * 1024 + (ch - 56320)] ELSE Append(a, ch), <<>>, s)
Unquote(r) == LET st == FoldLeft(UnqStep, [ok |-> TRUE, mode |-> 0, acc |-> 0, out |-> <<>>], r)
              IN [ok |-> st.ok /\ st.mode = 0, s |-> Pairs(st.out)]
Denotes(r, s) == LET u == Unquote(r) IN u.ok /\ u.s = s
\* the literal the library writes
Quote(s) == Cat2([i \in 1..Len(s) |-> IF s[i] = 34 THEN <<92, 34>> ELSE <<s[i]>>])

Blank(ch) == ch \in {9, 10, 12, 13, 32}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ Blank(s[1]) THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
Trim2(s) == Reverse(TrimL(Reverse(TrimL(s))))

\* ---------------------------------------------------------------- mirroring
\* a map in the expression: every wanted entry exactly once, nothing else
Entries(want, got, names(_, _), vals(_, _)) ==
  /\ Len(want) = Len(got)
  /\ \A i \in 1..Len(want) :
       Cardinality({j \in 1..Len(got) : names(got[j].n, want[i].n) /\ vals(want[i].v, got[j].v)}) = 1
IsProp(raw, n) == Denotes(raw, PropName(n))
IsKey(raw, n) == Denotes(raw, n)
IsCssKey(raw, n) == LET u == Unquote(raw) IN u.ok /\ Trim2(u.s) = Trim2(n)
IsCssVal(v, e) == e.t = "str" /\ LET u == Unquote(e.r) IN u.ok /\ Trim2(u.s) = Trim2(v)

RECURSIVE IsVal(_, _)
RECURSIVE IsNode(_, _)
IsVal(v, e) ==
  CASE v.k \in {"null", "true", "false"} -> e.t = v.k
    [] v.k = "num" -> e.t = "num" /\ e.s = v.s
    [] v.k = "str" -> e.t = "str" /\ Denotes(e.r, v.s)
    [] v.k = "expr" -> e.t = "expr" /\ e.s = v.s
    [] v.k = "arr" -> e.t = "arr" /\ Len(e.c) = Len(v.c) /\ \A i \in 1..Len(v.c) : IsVal(v.c[i], e.c[i])
    [] v.k = "obj" -> e.t = "obj" /\ Entries(v.e, e.e, IsKey, IsVal)
    [] v.k = "css" -> e.t = "obj" /\ Entries(v.d, e.e, IsCssKey, IsCssVal)
    [] v.k = "tgf" -> LET x == Exp(v.c) IN Len(x) = 1 /\ IsNode(x[1], e)
    [] OTHER -> IsNode(v, e)
\* attributes of HTML tags are strings (style: a CSS string)
IsAttr(v, e) == IF v.k = "css" THEN IsVal(v, e) ELSE e.t = "str" /\ Denotes(e.r, v.s)
IsNode(n, e) ==
  CASE n.k = "text" -> e.t = "str" /\ Denotes(e.r, n.s)
    [] n.k = "expr" -> (e.t = "expr" /\ e.s = n.s) \/ (e.t = "str" /\ Denotes(e.r, n.s))
    [] n.k = "jsx" -> /\ e.t = "el" /\ e.comp /\ e.n = n.n
                      /\ Entries(n.p, e.p, IsProp, IsVal)
                      /\ LET x == Exp(n.c) IN Len(x) = Len(e.c) /\ \A i \in 1..Len(x) : IsNode(x[i], e.c[i])
    [] n.k = "tag" -> /\ e.t = "el" /\ ~e.comp /\ e.n = n.n
                      /\ Entries(n.a, e.p, IsKey, IsAttr)
                      /\ LET x == Exp(n.c) IN Len(x) = Len(e.c) /\ \A i \in 1..Len(x) : IsNode(x[i], e.c[i])
    [] OTHER -> FALSE

\* ---------------------------------------------------------------- the design
\* the expression the design produces (literals as the library writes them)
RECURSIVE Mirror(_)
Mirror(n) ==
  CASE n.k \in {"null", "true", "false"} -> [t |-> n.k]
    [] n.k = "num" -> [t |-> "num", s |-> n.s]
    [] n.k \in {"str", "text"} -> [t |-> "str", r |-> Quote(n.s)]
    [] n.k = "expr" -> [t |-> "expr", s |-> n.s]
    [] n.k = "arr" -> [t |-> "arr", c |-> [i \in 1..Len(n.c) |-> Mirror(n.c[i])]]
    [] n.k = "obj" -> [t |-> "obj", e |-> [i \in 1..Len(n.e) |-> [n |-> Quote(n.e[i].n), v |-> Mirror(n.e[i].v)]]]
    [] n.k = "css" -> [t |-> "obj", e |-> [i \in 1..Len(n.d) |-> [n |-> Quote(n.d[i].n), v |-> [t |-> "str", r |-> Quote(n.d[i].v)]]]]
    [] n.k = "tgf" -> Mirror(Exp(n.c)[1])
    [] n.k = "jsx" -> [t |-> "el", comp |-> TRUE, n |-> n.n,
                       p |-> [i \in 1..Len(n.p) |-> [n |-> Quote(PropName(n.p[i].n)), v |-> Mirror(n.p[i].v)]],
                       c |-> LET x == Exp(n.c) IN [i \in 1..Len(x) |-> Mirror(x[i])]]
    [] n.k = "tag" -> [t |-> "el", comp |-> FALSE, n |-> n.n,
                       p |-> [i \in 1..Len(n.a) |-> [n |-> Quote(n.a[i].n), v |-> Mirror(n.a[i].v)]],
                       c |-> LET x == Exp(n.c) IN [i \in 1..Len(x) |-> Mirror(x[i])]]

\* ---------------------------------------------------------------- changes between conversions
SetProp(n, nm, v) ==
  LET i == SelectInSeq(n.p, LAMBDA x : PropName(x.n) = PropName(nm))
  IN IF i = 0 THEN [n EXCEPT !.p = Append(@, [n |-> nm, v |-> v])] ELSE [n EXCEPT !.p[i] = [n |-> nm, v |-> v]]
AddKids(n, c) == [n EXCEPT !.c = @ \o c]
\* construction with an allow-list
Rejected(allowed, names) == \E i \in 1..Len(names) : ~\E j \in 1..Len(allowed) : allowed[j] = names[i]
=============================================================================
