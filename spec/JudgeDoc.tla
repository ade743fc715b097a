------------------------------ MODULE JudgeDoc -----------------------------
(* Judges recorded documents (C11) and renderings of trees with tagifiable  *)
(* objects (C09).                                                           *)
EXTENDS Doc, JudgeCore

Raised(o) == IF o.ok THEN {} ELSE {"raised-" \o o.e}
IdsV(o, want, label) == IF ~o.ok THEN {label \o "-raised-" \o o.e}
                        ELSE IF o.ids = want THEN {} ELSE {label}

\* one document: q = "doc"
DocV(x) ==
  LET c == ExpandSeq(NormSeq(x.c))
      t == DocTree(c, x.kw, x.prefix, x.iv)
  IN IF ~x.out.ok THEN Raised(x.out)
     ELSE (IF RendersDoc(t, x.out.s) THEN {} ELSE {"document-markup"})
          \cup IdsV(x.deps, Ids(DocDeps(c, x.kw)), "returned-dependencies")

\* canonical form of an expanded tree, as the drivers abstract real trees
RECURSIVE BareSeq(_)
BareNode(n) ==
  CASE n.k = "tag" -> [k |-> "tag", n |-> n.n, ws |-> n.ws, a |-> [i \in 1..Len(n.a) |->
                          [n |-> n.a[i].n, v |-> n.a[i].v, h |-> n.a[i].h]], c |-> BareSeq(n.c)]
    [] n.k = "dep" -> [k |-> "dep", m |-> n.d.m]
    [] n.k = "meta" -> [k |-> "meta"]
    [] n.k = "tgf" -> [k |-> "tgf"]
    [] OTHER -> [k |-> n.k, s |-> n.s]
BareSeq(c) == [i \in 1..Len(c) |-> BareNode(c[i])]

\* a tree with tagifiable objects: q = "exp"
ExpV(x) ==
  LET n == NormSeq(x.c)
      c == ExpandSeq(n)
      whole(s) == IF x.top = "tag" THEN RendersTag(c[1], s) ELSE RendersList(c, s)
  IN (IF ~x.out.ok THEN {"render-" \o "raised-" \o x.out.e}
      ELSE IF whole(x.out.s) THEN {} ELSE {"not-the-rendering-of-the-expansion"})
     \* the library's own rendering of the replaced tree
     \cup (IF x.out.ok /\ x.plain.ok /\ x.out.s # x.plain.s THEN {"differs-from-replaced-tree"} ELSE {})
     \cup (IF ~x.doc.ok THEN {"document-raised-" \o x.doc.e}
           ELSE IF RendersDoc(DocTree(c, <<>>, S("lib"), TRUE), x.doc.s) THEN {} ELSE {"document-markup"})
     \cup (IF x.doc.ok /\ x.plaindoc.ok /\ x.doc.s # x.plaindoc.s THEN {"document-differs-from-replaced-tree"} ELSE {})
     \cup IdsV(x.deps, Ids(Resolve(AllDeps(c))), "dependencies-of-expansion")
     \cup IdsV(x.docdeps, Ids(DocDeps(c, <<>>)), "document-dependencies")
     \cup (IF HasPureTgf(n) /\ x.raw.ok THEN {"markup-of-unexpanded-tree"} ELSE {})
     \cup (IF ~x.tagified.ok THEN {"tagify-raised-" \o x.tagified.e}
           ELSE IF x.tagified.c = BareSeq(c) THEN {} ELSE {"tagify-is-not-the-expansion"})
     \cup (IF x.orig = BareSeq(n) THEN {} ELSE {"machinery-built-a-different-tree"})

DocVerdict(x) == CASE x.q = "doc" -> DocV(x) [] x.q = "exp" -> ExpV(x)
=============================================================================
