----------------------------- MODULE JudgeHooks ----------------------------
(* Judges recorded executions of nested "with tag:" blocks (C17).           *)
(* Every event carries the observed hook (hk), children and received values.*)
EXTENDS Hooks, JudgeTrace

HookStart(line) ==
  [hook |-> 1, sink |-> [k |-> "c", i |-> 1], stack |-> <<>>, used |-> {},
   kids |-> line.kids, recv |-> [i \in 1..line.customs |-> <<>>], raising |-> ToSet(line.raising)]

ObsV(st, e) ==
  (IF e.hk = st.hook THEN {} ELSE {"hook-not-the-expected-one"})
  \cup (IF e.kids = st.kids THEN {} ELSE {"children-of-a-tag"})
  \* only tags are compared: what a custom hook is given otherwise is not the tag's business
  \cup (LET tags(s) == SelectSeq(s, LAMBDA v : v.k = "tag")
        IN IF \A i \in 1..Len(st.recv) : tags(e.recv[i]) = tags(st.recv[i]) THEN {} ELSE {"tags-handed-to-the-hook"})
Sync(st, e) == [st EXCEPT !.kids = e.kids, !.recv = e.recv]
\* on a wrong hook the rest of the trace is judged from the observed state
Resync(st, e) == [Sync(st, e) EXCEPT !.hook = e.hk]

HookStep(st, e) ==
  LET go(want, extra) == [bad |-> extra \cup ObsV(want, e), st |-> Resync(want, e)]
  IN CASE e.op = "set" -> go([st EXCEPT !.hook = e.hk, !.sink = [k |-> "c", i |-> e.i]], {})
       [] e.op = "enter" ->
            IF e.res.ok
            THEN LET n == Entered(st, e.t, e.hk)
                 IN go(n, IF Active(st, e.t) THEN {"entered-an-active-tag"} ELSE {})
            ELSE go(st, IF Active(st, e.t) \/ e.t \in st.used THEN {} ELSE {"enter-raised-" \o e.res.e})
       [] e.op = "show" ->
            IF st.sink.k = "c" THEN go(Shown(st, e.v), {})
            ELSE go(Shown(st, e.v),
                    IF Ignored(e.v) THEN (IF e.res.ok THEN {} ELSE {"ignored-value-raised-" \o e.res.e})
                    ELSE IF Rejected(e.v)
                    THEN (IF e.res.ok THEN {"invalid-value-accepted"}
                          ELSE IF e.v.k # "rraise" /\ e.res.e # "TypeError" THEN {"invalid-value-raised-" \o e.res.e} ELSE {})
                    ELSE (IF e.res.ok THEN {} ELSE {"display-raised-" \o e.res.e}))
       [] e.op = "exit" ->
            IF st.stack = <<>> THEN [bad |-> {"machinery-exit-without-block"}, st |-> st]
            ELSE LET f == Top(st)
                 IN go(Left(st),
                       (IF f.t = e.t THEN {} ELSE {"machinery-block-order"})
                       \cup (IF ~e.body /\ ~e.res.ok /\ ~(f.sink.k = "c" /\ f.sink.i \in st.raising)
                             THEN {"exit-raised-" \o e.res.e} ELSE {}))
=============================================================================
