------------------------------ MODULE MCTagFns -----------------------------
(* Tag functions as transitions: every call appends a fresh tag and touches *)
(* nothing else; a mutation touches one tag.  Mode "table" visits every     *)
(* function with every kind of _add_ws; mode "hist" all short histories.    *)
EXTENDS TagFns, Json
CONSTANTS Mode, MaxOps, EmitOn

Ws == {"default", "true", "false", "bad"}
Calls == IF Mode = "table"
         THEN {[op |-> "call", m |-> m, f |-> f, ws |-> w] : m \in Modules, f \in HtmlFns \cup SvgFns, w \in Ws}
         ELSE {[op |-> "call", m |-> m, f |-> f, ws |-> w] : m \in {"tags", "svg"}, f \in {"a", "style"}, w \in Ws \ {"true"}}
VARIABLES tags, hist
vars == <<tags, hist>>
Init == tags = <<>> /\ hist = <<>>
Call(c) == /\ c.f \in Fns(c.m)
           /\ tags' = IF c.ws = "bad" THEN tags ELSE Append(tags, Created(InlineNames, c, <<>>, <<>>))
           /\ hist' = Append(hist, c)
Mutate(i, w) == /\ Mode = "hist"
                /\ tags' = [tags EXCEPT ![i] = IF w = "kid" THEN [@ EXCEPT !.kids = Append(@, "x")]
                                               ELSE IF w = "attr" THEN [@ EXCEPT !.attrs = Append(@, "x")]
                                               ELSE [@ EXCEPT !.ws = ~@]]
                /\ hist' = Append(hist, [op |-> "mutate", i |-> i, w |-> w])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E c \in Calls : Call(c)
           \/ \E i \in 1..Len(tags), w \in {"kid", "attr", "ws"} : Mutate(i, w)

Good(c) == LET t == Created(InlineNames, c, <<>>, <<>>)
           IN /\ t.name = ElementOf(c.f)
              /\ (c.ws = "default" => t.ws = (t.name \notin InlineNames))
              /\ (c.ws = "true" => t.ws) /\ (c.ws = "false" => ~t.ws)
EachGood == \A i \in 1..Len(hist) : hist[i].op = "call" => Good(hist[i])
\* a call changes no earlier tag
Fresh == [][LET o == hist'[Len(hist')]
            IN /\ Len(tags') >= Len(tags)
               /\ (o.op = "call" => SubSeq(tags', 1, Len(tags)) = tags)
               /\ (o.op = "mutate" => \A j \in 1..Len(tags) : j # o.i => tags'[j] = tags[j])]_vars
\* distinct functions of a module create distinct elements; counts and shortcuts
Tables == /\ Cardinality(HtmlFns) = 113 /\ Cardinality(SvgFns) = 66 /\ Cardinality(TopFns) = 17
          /\ TopFns \subseteq HtmlFns
          /\ \A m \in Modules : \A f, g \in Fns(m) : f # g => ElementOf(f) # ElementOf(g)
          /\ \E f \in HtmlFns : f \in InlineNames
          /\ \E f \in HtmlFns : f \notin InlineNames
Emit == (EmitOn /\ hist # <<>> /\ Len(hist) = MaxOps) => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
