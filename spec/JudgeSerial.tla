---------------------------- MODULE JudgeSerial ----------------------------
(* Judges recorded HTMLTextDocument runs and JSON-mode renderings (C13).    *)
EXTENDS Serial, JudgeCore

\* q = "text": deps (originals), given (indices), segs, ph, out, rec, direct
TextDocV(x) ==
  LET ss == Sers(x.segs)
      want == [i \in 1..Len(x.given) |-> x.deps[x.given[i]]]
              \o [i \in 1..Len(ss) |-> Recovered(x.deps[ss[i].d])]
      rest == RestOf(x.segs)
      a == Around(rest, x.ph)
      hm == HeadMarkup(want, x.prefix, x.iv)
      o == x.out.s
      mid == SubSeq(o, a.p, Len(o) - Len(a.post))
      sealed == \A i \in 1..Len(ss) : Sealed(ss[i].s)
  IN (IF sealed THEN {} ELSE {"end-tag-inside-serialised-element"})
     \cup (IF ~x.out.ok THEN {"raised-" \o x.out.e}
           ELSE IF ~sealed THEN {}
           ELSE (IF Len(x.rec) # Len(want) THEN {"number-of-dependencies"}
                 ELSE UNION {FieldsV(IF i <= Len(x.given) THEN x.deps[x.given[i]] ELSE x.deps[ss[i - Len(x.given)].d],
                                     x.rec[i]) : i \in 1..Len(want)})
                \cup (IF a.p = 0 THEN (IF o = rest THEN {} ELSE {"text-changed"})
                      ELSE IF ~(/\ Len(o) >= Len(a.pre) + Len(a.post) /\ SubSeq(o, 1, a.p - 1) = a.pre
                                /\ SubSeq(o, Len(o) - Len(a.post) + 1, Len(o)) = a.post)
                      THEN {"text-around-placeholder-changed"}
                      ELSE IF RendersList(hm, mid) \/ (x.direct.ok /\ Bare(x.direct.s) = Bare(mid)) THEN {}
                      ELSE {"placeholder-replaced-by-other-markup"}))
     \cup (IF x.again.ok /\ x.out.ok /\ x.again.s = o THEN {} ELSE {"second-render-differs"})

\* q = "json": rendering in JSON mode and post-processing = rendering directly
JsonV(x) ==
  IF ~x.direct.ok THEN {}      \* C11 decides
  ELSE IF ~x.out.ok THEN {"raised-" \o x.out.e}
  ELSE (IF Bare(x.out.s) = Bare(x.direct.s) THEN {} ELSE {"json-mode-differs-from-direct-rendering"})
       \cup (IF Len(x.rec) # Len(x.want) THEN {"json-mode-number-of-dependencies"}
             ELSE UNION {FieldsV(x.want[i], x.rec[i]) : i \in 1..Len(x.want)})
       \cup (IF \E i \in 1..Len(x.els) : ~Sealed(x.els[i]) THEN {"end-tag-inside-serialised-element"} ELSE {})

\* q = "ser": the element alone
SerV(x) == IF ~x.el.ok THEN {"raised-" \o x.el.e}
           ELSE IF Sealed(x.el.s) THEN {} ELSE {"end-tag-inside-serialised-element"}

SerialVerdict(x) == CASE x.q = "text" -> TextDocV(x) [] x.q = "json" -> JsonV(x) [] x.q = "ser" -> SerV(x)
=============================================================================
