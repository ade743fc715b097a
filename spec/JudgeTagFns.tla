---------------------------- MODULE JudgeTagFns ----------------------------
(* Judges recorded histories of tag-function calls (C19).  The state is the *)
(* sequence of snapshots of the tags made so far.  ref is what the Tag      *)
(* constructor makes of the same arguments.                                 *)
EXTENDS TagFns, JudgeTrace

FStart(line) == <<>>

NewOf(e) == e.obs[Len(e.obs)]
CallBad(st, e) ==
  LET inline == IF e.inl THEN {ElementOf(e.f)} ELSE {}
      c == [m |-> e.m, f |-> e.f, ws |-> e.ws]
  IN IF e.f \notin Fns(e.m) /\ ~e.extra THEN {"machinery-unknown-function"}
     ELSE IF ~e.found THEN {"function-is-missing"}
     ELSE IF e.ws = "bad" THEN (IF e.res.ok THEN {"non-boolean-_add_ws-accepted"} ELSE {})
     ELSE IF ~e.ref.ok
     THEN (IF e.res.ok THEN {"accepts-what-the-constructor-rejects"}
           ELSE IF e.res.e # e.ref.e THEN {"raises-unlike-the-constructor"} ELSE {})
     ELSE IF ~e.res.ok THEN {"raised-" \o e.res.e}
     ELSE LET want == Created(inline, c, e.ref.t.attrs, e.ref.t.kids)
              got == NewOf(e)
          IN (IF e.tag THEN {} ELSE {"not-a-Tag"})
             \cup (IF got.name = want.name THEN {} ELSE {"element-name"})
             \cup (IF got.ws = want.ws THEN {}
                   ELSE {IF e.ws = "default" THEN "default-whitespace" ELSE "explicit-_add_ws-not-honoured"})
             \cup (IF got.attrs = want.attrs THEN {} ELSE {"attributes-differ-from-the-constructor"})
             \cup (IF got.kids = want.kids THEN {} ELSE {"children-differ-from-the-constructor"})
             \cup (IF e.eq THEN {} ELSE {"not-equal-to-the-constructed-tag"})

FStep(st, e) ==
  LET keeps(j) == j <= Len(e.obs) /\ e.obs[j] = st[j]
  IN [st |-> e.obs,
      bad |-> IF e.op = "call"
              THEN CallBad(st, e) \cup (IF \A j \in 1..Len(st) : keeps(j) THEN {} ELSE {"call-changed-an-earlier-tag"})
              ELSE IF \A j \in 1..Len(st) : j = e.i \/ keeps(j) THEN {} ELSE {"tags-share-state"}]
=============================================================================
