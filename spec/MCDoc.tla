-------------------------------- MODULE MCDoc ------------------------------
(* All small document contents: html / body / head / div around text and    *)
(* dependencies, built by Open/Leaf/Close; document-level invariants.       *)
EXTENDS Doc, Json
CONSTANTS MaxNodes, EmitOn

Openers == {"html", "body", "head", "div"}
Dep(i, nm, v) == [k |-> "dep", d |-> [name |-> nm, v |-> v, m |-> i, src |-> [t |-> "none", s |-> <<>>],
   script |-> << << [n |-> S("src"), v |-> [t |-> "str", s |-> S("s.js")]] >> >>, stylesheet |-> <<>>,
   meta |-> << << [n |-> S("name"), v |-> [t |-> "str", s |-> S("vt-m")]],
                  [n |-> S("content"), v |-> [t |-> "str", s |-> <<48 + i>>]] >> >>]]
Node(op, i) ==
  CASE op \in Openers -> [k |-> "tag", n |-> S(op), ws |-> TRUE, a |-> <<>>, c |-> <<>>]
    [] op = "T" -> [k |-> "text", s |-> <<96 + i>>]
    [] op = "D" -> Dep(i, S("d"), S("1.0"))
    [] op = "E" -> Dep(i, S("d"), S("1.1"))
    [] op = "F" -> Dep(i, S("f"), S("1.0"))
Leaves == {"T", "D", "E", "F"}

VARIABLES word, depth, n
vars == <<word, depth, n>>
Build(w) ==
  LET push(st, nd) == [st EXCEPT ![Len(st)].c = Append(@, nd)]
      step(a, i) ==
        IF w[i] \in Openers THEN Append(a, Node(w[i], i))
        ELSE IF w[i] = ")" THEN push(SubSeq(a, 1, Len(a) - 1), a[Len(a)])
        ELSE push(a, Node(w[i], i))
  IN FoldLeft(step, << [k |-> "root", c |-> <<>>] >>, [i \in 1..Len(w) |-> i])[1].c

Init == word = <<>> /\ depth = 0 /\ n = 0
Open == n < MaxNodes /\ \E o \in Openers : word' = Append(word, o) /\ depth' = depth + 1 /\ n' = n + 1
Leaf == n < MaxNodes /\ \E o \in Leaves : word' = Append(word, o) /\ n' = n + 1 /\ UNCHANGED depth
Close == depth > 0 /\ word' = Append(word, ")") /\ depth' = depth - 1 /\ UNCHANGED n
Next == Open \/ Leaf \/ Close

Complete == depth = 0
C == Build(word)
\* at most one <head> directly in a sole <html>; other shapes are outside C11
InScope == LET c == C IN
   /\ ~(Len(c) > 1 /\ Len(Vis(c)) = 1 /\ c # <<>> /\ Vis(c)[1].k = "tag" /\ Vis(c)[1].n \in {S("html"), S("body")})
   /\ (Len(c) = 1 /\ Named(c[1], S("html")) =>
         Cardinality({i \in 1..Len(c[1].c) : Named(c[1].c[i], S("head"))}) <= 1)
T == DocTree(C, <<>>, S("lib"), TRUE)
Ok == Complete /\ InScope

RECURSIVE Count(_, _)
Count(c, nm) == FoldLeft(LAMBDA a, x : IF x.k = "tag" THEN a + (IF x.n = nm THEN 1 ELSE 0) + Count(x.c, nm) ELSE a, 0, c)
OneHtml == Ok => T.n = S("html")
OneHead == Ok => Cardinality({i \in 1..Len(T.c) : Named(T.c[i], S("head"))}) = 1
DocHead == T.c[HeadIndex(T.c)]
HoistedOnce == Ok => Count(DocHead.c, S("script")) =
   LET k == Len(Resolve(AllDeps(C))) IN IF k = 0 THEN 0 ELSE k + 1
\* everything else renders as without dependencies
BodyHasNoDeps == Ok =>
   LET rest == SelectSeq(T.c, LAMBDA x : ~Named(x, S("head")))
       bare == SelectSeq(HtmlTag(EraseSeq(C), <<>>).c, LAMBDA x : ~Named(x, S("head")))
   IN Len(C) # 1 \/ EraseSeq(rest) = bare
Emit == (EmitOn /\ Ok /\ n > 0) => PrintT("VT-CASE " \o ToJson(C))
=============================================================================
