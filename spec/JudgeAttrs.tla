------------------------------ MODULE JudgeAttrs ---------------------------
(* Judges recorded attribute histories: C15 (name/value/merge rules) and    *)
(* C16 (class, style, css).  Abstract state: Attrs.tla's ordered map.       *)
EXTENDS ClassStyle, JudgeTrace

\* observed value v matches pattern p inside an HTML() value; quotes and line
\* ends may or may not be escaped in the stored value (C03 decides rendering)
LooseStep(s, pos, p) ==
  LET r == MatchStep(s, pos, p)
  IN IF r # 0 \/ pos = 0 THEN r
     ELSE IF p < 0 /\ -p \in {DQ, SQ, CR, LF} /\ pos <= Len(s) /\ s[pos] = -p THEN pos + 1
     ELSE 0
LooseMatch(pat, s) == FoldLeft(LAMBDA q, p : LooseStep(s, q, p), 1, pat) = Len(s) + 1
ValEq(a, o) == a.h = o.h /\ (IF a.h THEN LooseMatch(a.p, o.v) ELSE Abs(a.p) = o.v)
EqAttr(a, o) == a.n = o.n /\ ValEq(a, o)
EqAttrs(st, obs) == Len(st) = Len(obs) /\ \A i \in 1..Len(st) : EqAttr(st[i], obs[i])
FromObs(obs) == [i \in 1..Len(obs) |->
   [n |-> obs[i].n, h |-> obs[i].h, p |-> IF obs[i].h THEN obs[i].v ELSE PatA(obs[i].v)]]

Why(st, obs) ==
  (IF [i \in 1..Len(st) |-> st[i].n] # [i \in 1..Len(obs) |-> obs[i].n]
   THEN {"attribute-names-or-order"}
   ELSE {"attribute-value"})

Res(bad, good, obs) == [bad |-> bad, st |-> IF bad = {} THEN good ELSE FromObs(obs)]

---------------------------------------------------------------------------
AStart(line) == <<>>

AStep(s, e) ==
  IF ~e.res.ok THEN Res({"raised-" \o e.res.e}, s, e.obs)
  ELSE IF e.op = "consolidate"
  THEN LET want == UpdateWith(<<>>, ArgPairs(e.args))
       IN Res((IF EqAttrs(want, e.cattrs) THEN {} ELSE {"consolidate-attrs"})
              \cup (IF e.plain THEN {} ELSE {"consolidate-not-a-dict"})
              \cup (IF e.kids THEN {} ELSE {"consolidate-children"})
              \cup (IF EqAttrs(want, e.rebuilt) /\ e.eq THEN {} ELSE {"rebuild-differs"}),
              s, e.obs)
  ELSE LET n == ApplyAttr(IF e.op = "ctor" THEN <<>> ELSE s, e)
       IN IF EqAttrs(n, e.obs) THEN [bad |-> {}, st |-> n]
          ELSE Res(Why(n, e.obs), n, e.obs)

---------------------------------------------------------------------------
\* C16
OtherEq(st, obs, nm) ==
  LET a == Del(st, nm)
      b == SelectSeq(obs, LAMBDA o : o.n # nm)
  IN Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqAttr(a[i], b[i])
ObsIdx(obs, nm) == SelectInSeq(obs, LAMBDA o : o.n = nm)
TokEq(st, obs) ==
  LET i == ObsIdx(obs, CLASS)
  IN IF i = 0 THEN ~HasAttr(st, CLASS)
     ELSE /\ HasAttr(st, CLASS)
          /\ LET want == ClassToks(st)
                 got == SplitWs(IF obs[i].h THEN Unbreak(obs[i].v) ELSE obs[i].v, HtmlSpace)
             IN Len(want) = Len(got)
                /\ \A k \in 1..Len(want) :
                     IF obs[i].h THEN LooseMatch(want[k], got[k])
                     ELSE IF ClassH(st) THEN Canon(want[k]) = EscA(got[k])
                     ELSE Abs(want[k]) = got[k]

ClassRes(n, e, label) ==
  LET bad == (IF TokEq(n, e.obs) THEN {} ELSE {label})
             \cup (IF OtherEq(n, e.obs, CLASS) THEN {} ELSE {"other-attributes-changed"})
             \cup (IF e.self THEN {} ELSE {"does-not-return-the-tag"})
  IN Res(bad, n, e.obs)

CStep(s, e) ==
  CASE e.op = "add_style" /\ ~EndsSemi(e.v) ->
         Res((IF e.res.ok THEN {"style-without-semicolon-accepted"} ELSE {})
             \cup (IF EqAttrs(s, e.obs) THEN {} ELSE {"rejected-style-changed-the-tag"}), s, e.obs)
    [] ~e.res.ok -> Res({"raised-" \o e.res.e}, s, e.obs)
    [] e.op = "add_style" ->
         LET n == ApplyAttr(s, e)
         IN Res((IF EqAttrs(SelectSeq(n, LAMBDA a : a.n # CLASS),
                            SelectSeq(e.obs, LAMBDA a : a.n # CLASS)) THEN {} ELSE {"style-value"})
                \cup (IF TokEq(n, e.obs) THEN {} ELSE {"style-changed-class"})
                \cup (IF e.self THEN {} ELSE {"does-not-return-the-tag"}), n, e.obs)
    [] e.op = "add_class" -> ClassRes(ApplyAttr(s, e), e, "add_class-tokens")
    [] e.op = "remove_class" ->
         IF Unclear(s, e.v.s)
         THEN [bad |-> IF e.self THEN {} ELSE {"does-not-return-the-tag"}, st |-> FromObs(e.obs)]
         ELSE IF ClassToks(s) = <<>>
         THEN \* nothing to remove: absent or still without tokens
              LET i == ObsIdx(e.obs, CLASS) IN
              Res((IF i = 0 \/ SplitWs(e.obs[i].v, HtmlSpace) = <<>> THEN {} ELSE {"remove_class-tokens"})
                  \cup (IF OtherEq(s, e.obs, CLASS) THEN {} ELSE {"other-attributes-changed"})
                  \cup (IF e.self THEN {} ELSE {"does-not-return-the-tag"}),
                  FromObs(e.obs), e.obs)
         ELSE ClassRes(RemoveTok(s, e.v.s), e, "remove_class-tokens")
    [] e.op = "has_class" ->
         Res((IF Unclear(s, e.v.s) \/ e.bool = HasTok(s, e.v.s) THEN {} ELSE {"has_class"})
             \cup (IF EqAttrs(s, e.obs) THEN {} ELSE {"has_class-changed-the-tag"}), s, e.obs)
    [] e.op = "css" ->
         Res((IF CssNone(e.args) THEN (IF e.none THEN {} ELSE {"css-not-None"})
              ELSE IF ~e.none /\ e.str = CssText(e.args, e.collapse) THEN {} ELSE {"css-text"})
             \cup (IF e.collapse = <<>> /\ ~e.none /\ ~e.accepted THEN {"css-rejected-by-add_style"} ELSE {}),
             s, e.obs)
    [] OTHER ->
         LET n == ApplyAttr(IF e.op = "ctor" THEN <<>> ELSE s, e)
         IN [bad |-> {}, st |-> IF EqAttrs(n, e.obs) THEN n ELSE FromObs(e.obs)]
=============================================================================
