-------------------------------- MODULE Html -------------------------------
(* An HTML tokenizer (the states of the WHATWG tokenizer that are reachable *)
(* from markup: data, tag open, end tag open, tag name, attribute name and  *)
(* value in its three quotings, self-closing start tag, comment / bogus     *)
(* comment, RAWTEXT and RCDATA).  Independent of how markup is produced.    *)
EXTENDS Tree

IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE -1

\* first index >= i whose code point satisfies membership in set; Len+1 if none
NextIn(s, i, set) ==
  IF i > Len(s) THEN Len(s) + 1
  ELSE LET j == SelectInSubSeq(s, i, Len(s), LAMBDA c : c \in set)
       IN IF j = 0 THEN Len(s) + 1 ELSE j
SkipIn(s, i, set) ==
  IF i > Len(s) THEN Len(s) + 1
  ELSE LET j == SelectInSubSeq(s, i, Len(s), LAMBDA c : c \notin set)
       IN IF j = 0 THEN Len(s) + 1 ELSE j

\* returns [i |-> next index (0: unterminated), a |-> attrs, sc |-> self closing]
RECURSIVE LexAttrs(_, _, _)
LexAttrs(s, i0, acc) ==
  LET i == SkipIn(s, i0, HtmlSpace) IN
  IF i > Len(s) THEN [i |-> 0, a |-> acc, sc |-> FALSE]
  ELSE IF s[i] = GT THEN [i |-> i + 1, a |-> acc, sc |-> FALSE]
  ELSE IF s[i] = SLASH
       THEN IF At(s, i + 1) = GT THEN [i |-> i + 2, a |-> acc, sc |-> TRUE]
            ELSE LexAttrs(s, i + 1, acc)
  ELSE LET ne == NextIn(s, i + 1, HtmlSpace \cup {SLASH, GT, EQ})
           nm == SubSeq(s, i, ne - 1)
           j  == SkipIn(s, ne, HtmlSpace)
       IN IF At(s, j) # EQ
          THEN LexAttrs(s, ne, Append(acc, [n |-> nm, v |-> <<>>]))
          ELSE LET v == SkipIn(s, j + 1, HtmlSpace) IN
               IF At(s, v) \in {DQ, SQ}
               THEN LET e == NextIn(s, v + 1, {s[v]})
                    IN IF e > Len(s) THEN [i |-> 0, a |-> acc, sc |-> FALSE]
                       ELSE LexAttrs(s, e + 1,
                              Append(acc, [n |-> nm, v |-> Decode(SubSeq(s, v + 1, e - 1))]))
               ELSE LET e == NextIn(s, v, HtmlSpace \cup {GT})
                    IN LexAttrs(s, e, Append(acc, [n |-> nm, v |-> Decode(SubSeq(s, v, e - 1))]))

RcNames == {S("title"), S("textarea")}

\* index of "</name" + delimiter, Len+1 when absent
RECURSIVE FindEnd(_, _, _)
FindEnd(s, i, nm) ==
  LET j == NextIn(s, i, {LT}) IN
  IF j > Len(s) THEN Len(s) + 1
  ELSE IF At(s, j + 1) = SLASH
          /\ j + 1 + Len(nm) <= Len(s)
          /\ Lower(SubSeq(s, j + 2, j + 1 + Len(nm))) = Lower(nm)
          /\ At(s, j + 2 + Len(nm)) \in (HtmlSpace \cup {SLASH, GT})
       THEN j ELSE FindEnd(s, j + 1, nm)

RECURSIVE Lex(_, _, _)
\* add text (already decoded) to the token list, merging adjacent text
AddText(toks, t) ==
  IF t = <<>> THEN toks
  ELSE IF toks # <<>> /\ toks[Len(toks)].k = "text"
       THEN [toks EXCEPT ![Len(toks)].s = @ \o t]
       ELSE Append(toks, [k |-> "text", s |-> t])

Lex(s, i, toks) ==
  IF i > Len(s) THEN toks
  ELSE
  LET j == NextIn(s, i, {LT})
      pre == AddText(toks, Decode(SubSeq(s, i, j - 1)))
      c == At(s, j + 1)
  IN IF j > Len(s) THEN pre
     ELSE IF IsAlpha(c)
     THEN LET ne == NextIn(s, j + 1, HtmlSpace \cup {SLASH, GT})
              nm == SubSeq(s, j + 1, ne - 1)
              r == LexAttrs(s, ne, <<>>)
              t1 == Append(pre, [k |-> "open", n |-> nm, a |-> r.a, sc |-> r.sc])
          IN IF r.i = 0 THEN Append(pre, [k |-> "eof-in-tag"])
             ELSE IF nm \in RawNames \cup RcNames
             THEN LET e == FindEnd(s, r.i, nm)
                      body == SubSeq(s, r.i, e - 1)
                  IN Lex(s, e, AddText(t1, IF nm \in RcNames THEN Decode(body) ELSE body))
             ELSE Lex(s, r.i, t1)
     ELSE IF c = SLASH /\ IsAlpha(At(s, j + 2))
     THEN LET ne == NextIn(s, j + 2, HtmlSpace \cup {SLASH, GT})
              r == LexAttrs(s, ne, <<>>)
          IN IF r.i = 0 THEN Append(pre, [k |-> "eof-in-tag"])
             ELSE Lex(s, r.i, Append(pre, [k |-> "close", n |-> SubSeq(s, j + 2, ne - 1),
                                           bad |-> (r.a # <<>> \/ r.sc)]))
     ELSE IF c \in {BANG, QM, SLASH}
     THEN LET e == IF At(s, j + 2) = 45 /\ At(s, j + 3) = 45 /\ c = BANG
                   THEN LET f == FindFrom(S("-->"), s, j + 4)
                        IN IF f = 0 THEN Len(s) + 1 ELSE f + 2
                   ELSE NextIn(s, j + 1, {GT})
          IN Lex(s, e + 1, Append(pre, [k |-> "markup-decl"]))
     ELSE Lex(s, j + 1, AddText(pre, <<LT>>))

\* trimmed, whitespace-only text dropped
Tidy(toks) ==
  FoldLeft(LAMBDA a, t :
     IF t.k # "text" THEN Append(a, t)
     ELSE LET x == Trim(t.s, HtmlSpace)
          IN IF x = <<>> THEN a ELSE Append(a, [k |-> "text", s |-> x]),
     <<>>, toks)
Tokens(s) == Tidy(Lex(s, 1, <<>>))

---------------------------------------------------------------------------
(* The tokens a tree of ordinary elements stands for.                       *)
RECURSIVE TreeToks(_)
TreeToks(n) ==
  IF IsMeta(n) THEN <<>>
  ELSE IF n.k = "tag"
  THEN LET as == [i \in 1..Len(n.a) |-> [n |-> n.a[i].n, v |-> n.a[i].v]]
           void == Vis(n.c) = <<>> /\ IsVoid(n)
           t1 == << [k |-> "open", n |-> n.n, a |-> as, sc |-> void] >>
       IN IF void THEN t1
          ELSE Append(FoldLeft(LAMBDA a, m : a \o TreeToks(m), t1, n.c),
                      [k |-> "close", n |-> n.n, bad |-> FALSE])
  ELSE << [k |-> "text", s |-> n.s] >>
MergeText(toks) ==
  FoldLeft(LAMBDA a, t : IF t.k = "text" THEN AddText(a, t.s) ELSE Append(a, t), <<>>, toks)
ListToks(c) == Tidy(MergeText(FoldLeft(LAMBDA a, n : a \o TreeToks(n), <<>>, c)))
=============================================================================
