------------------------------ MODULE JudgeHeap ----------------------------
(* Judges recorded histories over real object graphs (C08).  The state is   *)
(* the heap and what each read-only operation has returned so far for each  *)
(* structure; an event carries the objects that are new or changed.         *)
EXTENDS Heap, JudgeTrace

HeapStart(x) == [h |-> <<>>, memo |-> <<>>]

\* the heap after an event: e.ch is the list of new or changed objects [i, o]
After(h, e) ==
  LET n == FoldLeft(LAMBDA m, d : IF d.i > m THEN d.i ELSE m, Len(h), e.ch)
      base == [i \in 1..n |-> IF i <= Len(h) THEN h[i] ELSE [k |-> "unset"]]
  IN FoldLeft(LAMBDA a, d : [a EXCEPT ![d.i] = d.o], base, e.ch)
Touched(h, e) == {e.ch[j].i : j \in {j \in 1..Len(e.ch) : e.ch[j].i <= Len(h)}}

ReadBad(st, h2, e) ==
  LET key == <<e.name, e.args, Value(st.h, e.r)>>
      old == SelectSeq(st.memo, LAMBDA m : m.key = key)
  IN (IF ~e.ok THEN {e.name \o "-raised-" \o e.e} ELSE {})
     \cup (IF e.ok /\ old # <<>> /\ old[1].s # e.s THEN {e.name \o "-result-not-repeatable"} ELSE {})
TagifyBad(st, h2, e) ==
  IF ~e.ok THEN {"tagify-raised-" \o e.e}
  ELSE LET h == st.h IN
     (IF Own(h2, e.res) \cap Own(h2, e.r) = {} THEN {} ELSE {"tagify-shares-objects"})
     \cup (IF NeedsExpansion(h2, e.res) THEN {"tagify-not-a-fixed-point"} ELSE {})
     \cup (IF NeedsExpansion(h, e.r) THEN {}
           ELSE (IF Shape(Value(h2, e.res)) = Shape(Value(h, e.r)) THEN {} ELSE {"tagify-changes-structure"})
                \cup (IF ById(h, e.r) \/ (e.eq1 /\ e.eq2) THEN {} ELSE {"tagify-not-equal-to-original"}))
CmpBad(st, h2, e) ==
  IF ~e.ok THEN {"eq-raised-" \o e.e}
  ELSE (IF MustEqual(st.h, e.l, e.r) /\ ~(e.eq1 /\ e.eq2 /\ ~e.ne) THEN {"identical-objects-unequal"} ELSE {})
       \cup (IF MustDiffer(st.h, e.l, e.r) /\ (e.eq1 \/ e.eq2 \/ ~e.ne) THEN {"different-objects-equal"} ELSE {})
\* an object of another kind, though it holds the same data
ForeignBad(e) ==
  IF ~e.ok THEN {"eq-raised-" \o e.e} ELSE IF e.eq \/ ~e.ne THEN {"object-of-another-kind-equal"} ELSE {}
AgreeBad(e) ==
  IF ~e.ok THEN {"str-raised-" \o e.e}
  ELSE IF \A i \in 1..Len(e.ss) : e.ss[i] = e.ss[1] THEN {} ELSE {"str-repr-render-disagree"}

HeapStep(st, e) ==
  LET h2 == After(st.h, e)
      touched == Touched(st.h, e)
      pure == IF touched = {} THEN {} ELSE {e.op \o "-" \o e.name \o "-modified-an-object"}
      frame == IF touched \subseteq Reach(st.h, e.r) THEN {} ELSE {"mutation-affects-unrelated-object"}
      bad == CASE e.op = "new" -> IF touched = {} THEN {} ELSE {"construction-modified-an-object"}
               [] e.op = "read" -> pure \cup ReadBad(st, h2, e)
               [] e.op = "tagify" -> pure \cup TagifyBad(st, h2, e)
               [] e.op = "copy" -> pure \cup (IF ~e.ok THEN {"copy-raised-" \o e.e}
                     ELSE IF NeedsExpansion(st.h, e.r) \/ Shape(Value(h2, e.res)) = Shape(Value(st.h, e.r))
                     THEN {} ELSE {"copy-changes-structure"})
               [] e.op = "cmp" -> pure \cup CmpBad(st, h2, e)
               [] e.op = "foreign" -> pure \cup ForeignBad(e)
               [] e.op = "fail" -> pure      \* whatever it raised
               [] e.op = "agree" -> pure \cup AgreeBad(e)
               [] e.op = "mut" -> frame
      memo2 == IF e.op = "read" /\ e.ok
               THEN LET key == <<e.name, e.args, Value(st.h, e.r)>>
                    IN IF \E j \in 1..Len(st.memo) : st.memo[j].key = key THEN st.memo
                       ELSE Append(st.memo, [key |-> key, s |-> e.s])
               ELSE st.memo
  IN [bad |-> bad, st |-> [h |-> h2, memo |-> memo2]]
=============================================================================
