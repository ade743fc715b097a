------------------------------- MODULE Layout ------------------------------
(* Layout of rendered trees: the documented line rules (C06) as a           *)
(* declarative definition, the separator state machine of the library as an *)
(* operational one, and the permitted-gap grammar (C05).                    *)
EXTENDS Tree

Ind(lvl) == Rep(SPC, 2 * lvl)

---------------------------------------------------------------------------
(* Declarative: a tree is a sequence of lines.                              *)
SingleText(kids) == Len(kids) = 1 /\ kids[1].k \in {"text", "html"}

RECURSIVE BlockLines(_, _)
\* the lines of a sibling list at level lvl: every maximal run of non-block
\* siblings is one line, every block contributes its own lines.
SibLines(kids, lvl, raw) ==
  LET step(a, n) ==
        IF IsBlock(n)
        THEN [ls |-> a.ls \o (IF a.open THEN <<a.run>> ELSE <<>>) \o BlockLines(n, lvl),
              run |-> <<>>, open |-> FALSE]
        ELSE [ls |-> a.ls,
              run |-> (IF a.open THEN a.run ELSE Ind(lvl)) \o InlinePat(n, raw),
              open |-> TRUE]
      r == FoldLeft(step, [ls |-> <<>>, run |-> <<>>, open |-> FALSE], kids)
  IN IF r.open THEN Append(r.ls, r.run) ELSE r.ls

BlockLines(t, lvl) ==
  LET kids == Vis(t.c)
  IN IF kids = <<>> \/ SingleText(kids)
     THEN << Ind(lvl) \o InlinePat(t, FALSE) >>
     ELSE << Ind(lvl) \o OpenPat(t) >>
          \o SibLines(kids, lvl + 1, IsRawTag(t))
          \o << Ind(lvl) \o ClosePat(t) >>

TagLines(t, lvl) == IF IsBlock(t) THEN BlockLines(t, lvl)
                    ELSE << Ind(lvl) \o InlinePat(t, FALSE) >>

\* get_html_string of a tag / of a top-level list
DeclTag(t, lvl, eol) == Join(TagLines(t, lvl), eol)
DeclList(c, lvl, eol, addws) ==
  LET v == Vis(c)
      ls == SibLines(v, lvl, FALSE)
      \* with add_ws=FALSE the list starts on a line that is already begun
      out == Join(ls, eol)
  IN IF addws \/ v = <<>> \/ IsBlock(v[1]) THEN out
     ELSE SubSeq(out, 2 * lvl + 1, Len(out))

---------------------------------------------------------------------------
(* Operational: the separator state machine (state: first, prev) applied    *)
(* left to right over the children, as the library does it.                 *)
RECURSIVE OpTag(_, _, _)
OpList(c, lvl, eol, addws, raw) ==
  LET step(st, n) ==
        IF IsMeta(n) THEN st
        ELSE LET cur == st.prev \/ IsBlock(n)
                 sep == IF st.first THEN <<>> ELSE IF cur THEN eol ELSE <<>>
                 body == IF n.k = "tag"
                         THEN (IF cur THEN OpTag(n, lvl, eol) ELSE OpTag(n, 0, <<>>))
                         ELSE (IF st.prev THEN Ind(lvl) ELSE <<>>) \o LeafPat(n, raw)
             IN [out |-> st.out \o sep \o body, first |-> FALSE, prev |-> IsBlock(n)]
  IN FoldLeft(step, [out |-> <<>>, first |-> TRUE, prev |-> addws], c).out

OpTag(t, lvl, eol) ==
  LET kids == Vis(t.c)
  IN IF kids = <<>> /\ IsVoid(t) THEN Ind(lvl) \o VoidPat(t)
     ELSE IF kids = <<>> THEN Ind(lvl) \o OpenPat(t) \o ClosePat(t)
     ELSE IF SingleText(kids)
     THEN Ind(lvl) \o OpenPat(t) \o LeafPat(kids[1], IsRawTag(t)) \o ClosePat(t)
     ELSE Ind(lvl) \o OpenPat(t) \o (IF t.ws THEN eol ELSE <<>>)
          \o OpList(t.c, lvl + 1, eol, t.ws, IsRawTag(t))
          \o (IF t.ws THEN eol \o Ind(lvl) ELSE <<>>)
          \o ClosePat(t)

---------------------------------------------------------------------------
(* Permitted gaps: the output is the sequence of pieces, with layout        *)
(* whitespace only at boundaries that touch an opening or closing tag of a  *)
(* whitespace-enabled tag.                                                  *)
RECURSIVE PiecesNode(_, _)
PiecesSeq(c, raw) == FoldLeft(LAMBDA a, n : a \o PiecesNode(n, raw), <<>>, c)
PiecesNode(n, raw) ==
  IF IsMeta(n) THEN <<>>
  ELSE IF n.k # "tag" THEN << [p |-> LeafPat(n, raw), b |-> FALSE] >>
  ELSE IF Vis(n.c) = <<>> /\ IsVoid(n) THEN << [p |-> VoidPat(n), b |-> n.ws] >>
  ELSE << [p |-> OpenPat(n), b |-> n.ws] >> \o PiecesSeq(n.c, IsRawTag(n))
       \o << [p |-> ClosePat(n), b |-> n.ws] >>

RECURSIVE GapClose(_, _, _)
GapClose(s, eol, P) ==
  LET N == P \cup {q + 1 : q \in {p \in P : p <= Len(s) /\ s[p] = SPC}}
             \cup (IF eol = <<>> THEN {}
                   ELSE {q + Len(eol) : q \in {p \in P : OccursAt(eol, s, p)}})
  IN IF N = P THEN P ELSE GapClose(s, eol, N)

\* all positions after the pieces have been matched
GapMatch(pieces, s, lvl, eol) ==
  LET start == IF pieces # <<>> /\ pieces[1].b THEN GapClose(s, eol, {1})
               ELSE {1} \cup (IF lvl > 0 /\ OccursAt(Ind(lvl), s, 1) THEN {2 * lvl + 1} ELSE {})
      adv(P, pat) == {MatchFrom(pat, s, p) : p \in P} \ {0}
      step(st, pc) ==
        LET P == IF (st.i > 0 /\ (st.b \/ pc.b)) THEN GapClose(s, eol, st.P) ELSE st.P
        IN [P |-> adv(P, pc.p), b |-> pc.b, i |-> st.i + 1]
      r == FoldLeft(step, [P |-> start, b |-> FALSE, i |-> 0], pieces)
  IN IF r.b THEN GapClose(s, eol, r.P) ELSE r.P

\* pieces match when whitespace at any boundary is ignored
LooseOK(c, s) ==
  LET pcs == PiecesSeq(c, FALSE)
      p2 == [i \in 1..Len(pcs) |-> [p |-> pcs[i].p, b |-> TRUE]]
  IN IF pcs = <<>> THEN \A i \in 1..Len(s) : s[i] \in {SPC, LF}
     ELSE (Len(s) + 1) \in GapMatch(p2, s, 0, <<LF>>)

GapOK(c, s, lvl, eol) ==
  LET pcs == PiecesSeq(c, FALSE)
  IN IF pcs = <<>> THEN \A i \in 1..Len(s) : s[i] = SPC
     ELSE (Len(s) + 1) \in GapMatch(pcs, s, lvl, eol)
=============================================================================
