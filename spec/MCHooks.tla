------------------------------ MODULE MCHooks ------------------------------
(* All short executions of nested blocks with exceptions: restoration,      *)
(* exactly-once delivery and order.  A frame is a block or a try; after an  *)
(* exception only unwinding steps are possible until a try is reached.      *)
EXTENDS Hooks, Json
CONSTANTS Tags, MaxOps, EmitOn

Vals == {"text", "none", "repr", "bad"}
Val(v) == CASE v = "text" -> [k |-> "text", s |-> <<97>>] [] v = "none" -> [k |-> "none"]
            [] v = "repr" -> [k |-> "repr", id |-> 1, s |-> <<114>>] [] OTHER -> [k |-> "bad"]

VARIABLES st, frames, exc, next, hist, exits
vars == <<st, frames, exc, next, hist, exits>>
Init == /\ st = [hook |-> 1, sink |-> [k |-> "c", i |-> 1], stack |-> <<>>, used |-> {},
                 kids |-> [t \in 1..Tags |-> <<>>], recv |-> <<<<>>, <<>>>>]
        /\ frames = <<>> /\ exc = FALSE /\ next = 3 /\ hist = <<>> /\ exits = [t \in 1..Tags |-> 0]
Log(e) == hist' = Append(hist, e)
Room == Len(hist) < MaxOps /\ ~exc
Enter(t) ==
  /\ Room /\ t \notin st.used
  /\ IF Active(st, t) THEN exc' = TRUE /\ UNCHANGED <<st, frames, next>>
     ELSE /\ st' = Entered(st, t, next) /\ frames' = Append(frames, "with") /\ next' = next + 1 /\ UNCHANGED exc
  /\ Log([op |-> "enter", t |-> t]) /\ UNCHANGED exits
Show(v) == /\ Room /\ st' = Shown(st, Val(v))
           /\ exc' = (st.sink.k = "tag" /\ ~Ignored(Val(v)) /\ Rejected(Val(v)))
           /\ Log([op |-> "show", v |-> v]) /\ UNCHANGED <<frames, next, exits>>
Raise == Room /\ frames # <<>> /\ exc' = TRUE /\ Log([op |-> "raise"]) /\ UNCHANGED <<st, frames, next, exits>>
SetHook == /\ Room /\ st.sink # [k |-> "c", i |-> 2] /\ st' = [st EXCEPT !.hook = 2, !.sink = [k |-> "c", i |-> 2]]
           /\ Log([op |-> "set"]) /\ UNCHANGED <<frames, exc, next, exits>>
Try == Room /\ frames' = Append(frames, "try") /\ Log([op |-> "try"]) /\ UNCHANGED <<st, exc, next, exits>>
\* leaving the innermost frame, normally or while unwinding
Leave == /\ frames # <<>>
         /\ frames' = SubSeq(frames, 1, Len(frames) - 1)
         /\ IF frames[Len(frames)] = "try"
            THEN exc' = FALSE /\ UNCHANGED <<st, exits>> /\ Log([op |-> "endtry"])
            ELSE /\ st' = Left(st) /\ exits' = [exits EXCEPT ![Top(st).t] = @ + 1]
                 /\ UNCHANGED exc /\ Log([op |-> "exit"])
         /\ UNCHANGED next
Next == \/ \E t \in 1..Tags : Enter(t)
        \/ \E v \in Vals : Show(v)
        \/ Raise \/ SetHook \/ Try \/ Leave

Count(s, t) == Cardinality({i \in 1..Len(s) : s[i] = TagItem(t)})
\* every tag has been handed over exactly as often as its block was left
ExactlyOnce == \A t \in 1..Tags : exits[t] =
   FoldLeft(LAMBDA a, s : a + Count(s, t), 0, [i \in 1..Tags |-> st.kids[i]] \o st.recv)
AtMostOnce == \A t \in 1..Tags : exits[t] <= 1
\* leaving a block installs the hook that was there when it was entered
Restores == [][\A i \in 1..Len(st.stack) : Len(st'.stack) = i - 1 => st'.hook = st.stack[i].hook /\ st'.sink = st.stack[i].sink]_vars
\* a failed entry changes nothing
Intact == [][(exc' /\ ~exc /\ Len(hist') > 0 /\ hist'[Len(hist')].op \in {"enter", "raise"}) => st' = st]_vars
\* outside all blocks, and without a custom hook installed there, the base hook is back
Ground == (st.stack = <<>> /\ \A i \in 1..Len(hist) : hist[i].op # "set") => st.hook = 1
\* an active block's tag gets nothing from inner blocks but the inner tags themselves
Emit == (EmitOn /\ frames = <<>> /\ hist # <<>> /\ \E i \in 1..Len(hist) : hist[i].op = "enter") => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
