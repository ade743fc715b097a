------------------------------- MODULE Serial ------------------------------
(* Serialised dependencies in HTML text (C13).  A text is a sequence of     *)
(* segments: [t |-> "text", s] and [t |-> "ser", s (the element), d (index  *)
(* of the dependency)].                                                     *)
EXTENDS Doc

OpenScript == S("<script type=\"application/json\" data-html-dependency=\"\">")
CloseScript == S("</script>")
EndLike == S("</script")

\* an element whose only end-tag-like text is its own closing tag
Sealed(e) == LET l == Lower(e)
                 n == Len(e) - Len(CloseScript)
             IN /\ n > 0 /\ SubSeq(e, n + 1, Len(e)) = CloseScript
                /\ SubSeq(l, 1, 7) = S("<script")
                /\ FindFrom(EndLike, l, 1) = n + 1

TextOf(segs) == Cat([i \in 1..Len(segs) |-> segs[i].s])
RestOf(segs) == Cat([i \in 1..Len(segs) |-> IF segs[i].t = "text" THEN segs[i].s ELSE <<>>])
\* the serialised segments, once per distinct serialisation
Sers(segs) == FoldLeft(LAMBDA a, x : IF x.t = "text" \/ \E i \in 1..Len(a) : a[i].s = x.s THEN a ELSE Append(a, x),
                       <<>>, segs)

\* operational: scan for open ... close, left to right, shortest match
RECURSIVE Scan(_, _, _, _)
Scan(s, i, rest, found) ==
  LET o == FindFrom(OpenScript, s, i)
      c == IF o = 0 THEN 0 ELSE FindFrom(CloseScript, s, o + Len(OpenScript))
  IN IF c = 0 THEN [rest |-> rest \o SubSeq(s, i, Len(s)), found |-> found]
     ELSE Scan(s, c + Len(CloseScript), rest \o SubSeq(s, i, o - 1),
               LET e == SubSeq(s, o, c + Len(CloseScript) - 1)
               IN IF \E k \in 1..Len(found) : found[k] = e THEN found ELSE Append(found, e))
ScanText(s) == Scan(s, 1, <<>>, <<>>)

\* serialising: the inside of the element with "</script" (any case) broken up
RECURSIVE Breakup(_, _, _)
Breakup(s, i, acc) ==
  LET j == FindFrom(EndLike, Lower(s), i)
  IN IF j = 0 THEN acc \o SubSeq(s, i, Len(s))
     ELSE Breakup(s, j + 2, acc \o SubSeq(s, i, j) \o S("\\/"))
Element(payload) == OpenScript \o Breakup(payload, 1, <<>>) \o CloseScript

---------------------------------------------------------------------------
\* the first occurrence of the placeholder replaced
Around(rest, ph) == LET p == FindFrom(ph, rest, 1)
                    IN [p |-> p, pre |-> SubSeq(rest, 1, p - 1), post |-> SubSeq(rest, p + Len(ph), Len(rest))]
ReplaceFirst(rest, ph, m) == LET a == Around(rest, ph) IN IF a.p = 0 THEN rest ELSE a.pre \o m \o a.post

\* a dependency as recovered: its head is the markup of the original head
Recovered(d) == IF d.hm.ok THEN [d EXCEPT !.head = << [k |-> "html", s |-> d.hm.s] >>]
                ELSE [f \in DOMAIN d \ {"head"} |-> d[f]]

\* fields: items are compared as dicts
SameItems(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : ToSet(a[i]) = ToSet(b[i]) /\ Len(a[i]) = Len(b[i])
FieldsV(d, r) ==
  (IF r.name = d.name THEN {} ELSE {"recovered-name"})
  \cup (IF r.v = d.v THEN {} ELSE {"recovered-version"})
  \cup (IF SameItems(d.source, r.source) THEN {} ELSE {"recovered-source"})
  \cup (IF SameItems(d.script, r.script) THEN {} ELSE {"recovered-script"})
  \cup (IF SameItems([i \in 1..Len(d.stylesheet) |-> WithRel(d.stylesheet[i])], r.stylesheet)
        THEN {} ELSE {"recovered-stylesheet"})
  \cup (IF SameItems(d.meta, r.meta) THEN {} ELSE {"recovered-meta"})
  \cup (IF d.all = r.all THEN {} ELSE {"recovered-all_files"})
  \cup (IF d.hm.s = r.hm.s /\ (d.hm.s # <<>> => r.hm.ok) THEN {} ELSE {"recovered-head"})

Bare(s) == SelectSeq(s, LAMBDA c : c \notin HtmlSpace)
=============================================================================
