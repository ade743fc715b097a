------------------------------- MODULE Hooks -------------------------------
(* The display hook and "with tag:" blocks (C17).                           *)
(* State: hook   the installed hook (a number standing for the object),     *)
(*        sink   who receives displayed values: [k |-> "c"|"tag", i],       *)
(*        stack  active blocks <<[t, hook, sink]>>,                          *)
(*        kids   children of every tag, recv  values seen by custom hooks,  *)
(*        used   tags whose block has been left.                            *)
(* Values: text/html/num/none/list/obj/bad as in ChildList, plus            *)
(*  "ell" (Ellipsis), "repr" (id, s), "tag" (t), "rraise" (its              *)
(*  _repr_html_ raises).                                                    *)
EXTENDS ChildList

\* inside lists, self-rendering objects stay objects and Ellipsis is invalid
RECURSIVE Inner(_)
Inner(v) == CASE v.k = "list" -> [v EXCEPT !.c = [i \in 1..Len(v.c) |-> Inner(v.c[i])]]
              [] v.k = "repr" -> [k |-> "obj", id |-> v.id]
              [] v.k = "ell" -> [k |-> "bad"]
              [] OTHER -> v
Rejected(v) == v.k = "rraise" \/ HasBad(<<Inner(v)>>)
Ignored(v) == v.k \in {"none", "ell"}
\* what a displayed value adds to the tag's children
Added(v) == IF Ignored(v) \/ (v.k # "ell" /\ Rejected(v)) THEN <<>>
            ELSE IF v.k = "repr" THEN << [k |-> "html", s |-> v.s] >>
            ELSE Flatten(<<>>, <<Inner(v)>>)
TagItem(t) == [k |-> "tag", t |-> t]

Active(st, t) == \E i \in 1..Len(st.stack) : st.stack[i].t = t
\* hand a value to a sink
Give(st, sink, items) ==
  IF sink.k = "c" THEN [st EXCEPT !.recv[sink.i] = @ \o items]
  ELSE [st EXCEPT !.kids[sink.i] = @ \o items]

Entered(st, t, hk) ==
  [st EXCEPT !.stack = Append(@, [t |-> t, hook |-> st.hook, sink |-> st.sink]),
             !.hook = hk, !.sink = [k |-> "tag", i |-> t]]
Top(st) == st.stack[Len(st.stack)]
Left(st) ==
  LET f == Top(st)
      s1 == [st EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1), !.hook = f.hook, !.sink = f.sink, !.used = @ \cup {f.t}]
  IN Give(s1, f.sink, <<TagItem(f.t)>>)
Shown(st, v) ==
  IF st.sink.k = "c" THEN [st EXCEPT !.recv[st.sink.i] = Append(@, v)]
  ELSE Give(st, st.sink, Added(v))
=============================================================================
