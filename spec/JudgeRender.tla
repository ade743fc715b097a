----------------------------- MODULE JudgeRender ---------------------------
(* Judges recorded renderings: C01 (q = "tok"), C05 ("gap"), C06 ("lay"),   *)
(* C07 ("meta").                                                            *)
EXTENDS Layout, Html, JudgeCore

Ok(o) == IF o.ok THEN {} ELSE {"raised-" \o o.e}

TokV(x) ==
  LET c == NormSeq(x.c) IN
  IF ~x.out.ok THEN Ok(x.out)
  ELSE IF Tokens(x.out.s) = ListToks(c) THEN {} ELSE {"tokens-differ-from-tree"}

GapV(x) ==
  LET c == NormSeq(x.c) IN
  IF ~x.out.ok THEN Ok(x.out)
  ELSE IF GapOK(c, x.out.s, x.lvl, x.eol) THEN {} ELSE {"whitespace-in-inline-content"}

LayV(x) ==
  LET c == NormSeq(x.c) IN
  IF ~x.out.ok THEN Ok(x.out)
  ELSE IF ~ValidNest(c) THEN {"machinery-invalid-tree"}
  ELSE IF Matches(IF x.top = "tag" THEN DeclTag(c[1], x.lvl, x.eol)
                  ELSE DeclList(c, x.lvl, x.eol, x.addws), x.out.s)
       THEN {} ELSE {"layout"}

MetaV(x) ==
  Ok(x.out) \cup Ok(x.out0)
  \cup (IF EraseSeq(NormSeq(x.c)) = NormSeq(x.c0) THEN {} ELSE {"machinery-not-an-erasure"})
  \cup (IF x.out.ok /\ x.out0.ok /\ x.out.s # x.out0.s THEN {"metadata-changes-markup"} ELSE {})

RenderVerdict(x) ==
  CASE x.q = "tok" -> TokV(x) [] x.q = "gap" -> GapV(x)
    [] x.q = "lay" -> LayV(x) [] x.q = "meta" -> MetaV(x)
=============================================================================
