------------------------------ MODULE JudgeText ----------------------------
(* Judges recorded escapings: C02 ("esc", "loose"), C03 ("esca", "attr",    *)
(* "loose"), C04 ("cat", "loose").                                          *)
EXTENDS Layout, Attrs, JudgeCore

Raised(o) == {"raised-" \o o.e}

\* html_escape(s): text mapping / attribute mapping
EscV(x) == IF ~x.out.ok THEN Raised(x.out)
           ELSE IF Matches(PatT(x.s), x.out.s) THEN {} ELSE {"html_escape-text"}
EscAV(x) == IF ~x.out.ok THEN Raised(x.out)
            ELSE IF Matches(PatA(x.s), x.out.s) THEN {} ELSE {"html_escape-attr"}

\* a rendered tree, whitespace between pieces ignored; attributes given by
\* supply operations ("sup") are computed by the specification
RECURSIVE Supplied(_)
Supplied(c) == [i \in 1..Len(c) |->
   IF c[i].k # "tag" THEN c[i]
   ELSE LET t == [c[i] EXCEPT !.c = Supplied(c[i].c)]
        IN IF "sup" \in DOMAIN t THEN [t EXCEPT !.a = ApplyAll(t.sup)] ELSE t]
LooseV(x) ==
  IF ~x.out.ok THEN Raised(x.out)
  ELSE IF LooseOK(Supplied(ExpandSeq(NormSeq(x.c))), x.out.s) THEN {} ELSE {x.clause}

\* exactly one tag with supplied attributes, nothing else
AttrV(x) ==
  IF ~x.out.ok THEN Raised(x.out)
  ELSE LET t == [k |-> "tag", n |-> x.n, ws |-> TRUE, a |-> ApplyAll(x.sup), c |-> <<>>]
           e == MatchFrom(OpenHead(t), x.out.s, 1)
           rest == IF e = 0 THEN <<>> ELSE SubSeq(x.out.s, e, Len(x.out.s))
           shape == rest \in {<<GT>> \o ClosePat(t), <<SLASH, GT>>, <<SPC, SLASH, GT>>}
       IN IF shape THEN {} ELSE {"attribute-rendering"}

\* a concatenation: result kind and text, and its rendering as a child
CatV(x) ==
  LET v == ExprVal(x.e) IN
  IF ~x.val.ok THEN Raised(x.val)
  ELSE (IF x.html = v.h THEN {} ELSE {"concatenation-not-HTML"})
    \cup (IF Matches(IF v.h THEN v.p ELSE Abs(v.p), x.val.s) THEN {} ELSE {"concatenation-text"})

TextVerdict(x) ==
  CASE x.q = "esc" -> EscV(x) [] x.q = "esca" -> EscAV(x)
    [] x.q = "loose" -> LooseV(x) [] x.q = "attr" -> AttrV(x)
    [] x.q = "cat" -> CatV(x)
=============================================================================
