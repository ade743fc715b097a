------------------------------ MODULE JudgeChild ---------------------------
(* Judges recorded histories of child-list operations (C14).                *)
EXTENDS ChildList, JudgeTrace

ChildStart(line) == <<>>

\* every stored element is a normalised node; elements compare by value
\* (strings) or identity (objects)
ChildStep(h, e) ==
  LET want == ApplyChild(h, e)
      bad ==
        (IF MustRaise(h, e)
         THEN IF e.res.ok THEN {"unsupported-argument-accepted"}
              ELSE IF e.res.e # "TypeError" THEN {"unsupported-argument-raised-" \o e.res.e} ELSE {}
         ELSE IF e.res.ok THEN {} ELSE {"raised-" \o e.res.e})
        \cup (IF \E i \in 1..Len(e.obs) : \E j \in 1..Len(e.obs[i]) : ~Stored(e.obs[i][j])
              THEN {"un-normalised-element"} ELSE {})
        \cup (IF e.nodes THEN {} ELSE {"is_tag_node-rejects-a-stored-element"})
        \cup (IF e.res.ok /\ ~e.child THEN {"is_tag_child-rejects-an-accepted-value"} ELSE {})
        \cup (IF e.res.ok /\ ~e.type THEN {"result-is-not-a-TagList"} ELSE {})
        \cup (IF MustRaise(h, e) /\ e.obs # h THEN {"failed-operation-changed-a-list"}
              ELSE IF e.res.ok /\ e.obs # want THEN {"not-the-flattening-of-the-arguments"}
              ELSE {})
  IN [bad |-> bad, st |-> e.obs]
=============================================================================
