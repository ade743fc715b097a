-------------------------------- MODULE MCJsx ------------------------------
(* All small components (mode "tree"), and the literals of all short        *)
(* strings (mode "quote").                                                  *)
(* A tree is a sequence of parts [par, slot, k]; part 1 is the component.    *)
EXTENDS Jsx, Json
CONSTANTS Mode, MaxNodes, Chars, EmitOn

VARIABLES parts, str
vars == <<parts, str>>

KidKinds == {"text", "num", "none", "expr", "list", "tgf", "meta", "tag", "jsx"}
PropKinds == {"null", "true", "num", "str", "expr", "arr", "obj", "css", "tag", "jsx", "tgf1"}
ItemKinds == {"null", "str", "num", "expr", "ptag"}
Slots(k) == CASE k = "jsx" -> ({"kid"} \X KidKinds) \cup ({"prop"} \X PropKinds)
              [] k = "tag" -> ({"kid"} \X KidKinds) \cup {<<"attr", "str">>, <<"attr", "css">>}
              [] k \in {"list"} -> {"kid"} \X KidKinds
              [] k \in {"tgf"} -> {"kid"} \X {"text", "meta", "tag0", "tgf"}
              [] k \in {"tag0"} -> {"kid"} \X {"text", "meta", "tgf"}
              [] k \in {"tgf1"} -> {<<"kid", "tag0">>}
              [] k = "arr" -> {"item"} \X ItemKinds
              [] k = "obj" -> {"item"} \X ItemKinds
              [] OTHER -> {}
Kids(i, slot) == SelectSeq([j \in 1..Len(parts) |-> j], LAMBDA j : parts[j].par = i /\ parts[j].slot = slot)

RECURSIVE Node(_)
Node(i) ==
  LET k == parts[i].k
      c == [j \in 1..Len(Kids(i, "kid")) |-> Node(Kids(i, "kid")[j])]
      items == [j \in 1..Len(Kids(i, "item")) |-> Node(Kids(i, "item")[j])]
      nm(j) == IF parts[j].k = "css" THEN <<115, 116, 121, 108, 101>> ELSE <<96 + j>>
  IN CASE k = "jsx" -> [k |-> "jsx", n |-> <<70>>, c |-> c,
                        p |-> LET q == Kids(i, "prop") IN [j \in 1..Len(q) |-> [n |-> nm(q[j]) \o (IF parts[q[j]].k = "css" THEN <<>> ELSE <<95>>), v |-> Node(q[j])]]]
       [] k \in {"tag", "tag0", "ptag"} ->
            [k |-> "tag", n |-> <<98>>, c |-> c,
             a |-> LET q == Kids(i, "attr") IN [j \in 1..Len(q) |-> [n |-> nm(q[j]), v |-> Node(q[j])]]]
       [] k = "list" -> [k |-> "list", c |-> c]
       [] k = "tgf" -> [k |-> "tgf", lst |-> TRUE, c |-> c]
       [] k = "tgf1" -> [k |-> "tgf", lst |-> FALSE, c |-> IF c = <<>> THEN << [k |-> "tag", n |-> <<98>>, c |-> <<>>, a |-> <<>>] >> ELSE c]
       [] k = "meta" -> [k |-> "meta", m |-> i, nm |-> (i + 2) \div 3, dep |-> i % 2 = 0]
       [] k = "text" -> [k |-> "text", s |-> <<116, 48 + i>>]
       [] k = "str" -> [k |-> "str", s |-> <<34, 48 + i>>]
       [] k = "num" -> [k |-> "num", s |-> <<48 + i>>]
       [] k = "expr" -> [k |-> "expr", s |-> <<120, 48 + i>>]
       [] k = "arr" -> [k |-> "arr", c |-> items]
       [] k = "obj" -> [k |-> "obj", e |-> [j \in 1..Len(items) |-> [n |-> <<96 + j>>, v |-> items[j]]]]
       [] k = "css" -> [k |-> "css", d |-> << [n |-> <<97>>, v |-> <<98>>] >>]
       [] OTHER -> [k |-> k]
Root == Node(1)

Init == parts = << [par |-> 0, slot |-> "root", k |-> "jsx"] >> /\ str = <<>>
Grow == \E i \in 1..Len(parts) :
          /\ i >= parts[Len(parts)].par                 \* breadth-first: every tree once
          /\ \E s \in Slots(parts[i].k) :
               /\ (parts[i].k = "tgf1" => Kids(i, "kid") = <<>>)
               /\ (s[2] = "css" => \A j \in 1..Len(parts) : ~(parts[j].par = i /\ parts[j].k = "css"))
               /\ parts' = Append(parts, [par |-> i, slot |-> s[1], k |-> s[2]])
Next == \/ Mode = "tree" /\ Len(parts) < MaxNodes /\ Grow /\ UNCHANGED str
        \/ Mode = "quote" /\ Len(str) < MaxNodes /\ \E c \in Chars : str' = Append(str, c) /\ UNCHANGED parts

\* ------------------------------------------------------------- properties
RECURSIVE Els(_)
Els(e) == CASE e.t = "el" -> 1 + FoldLeft(LAMBDA a, x : a + Els(x), 0, e.c) + FoldLeft(LAMBDA a, x : a + Els(x.v), 0, e.p)
            [] e.t = "arr" -> FoldLeft(LAMBDA a, x : a + Els(x), 0, e.c)
            [] e.t = "obj" -> FoldLeft(LAMBDA a, x : a + Els(x.v), 0, e.e)
            [] OTHER -> 0
Elements == Cardinality({i \in 1..Len(parts) : parts[i].k \in {"jsx", "tag", "tag0", "ptag"}})
            + Cardinality({i \in 1..Len(parts) : parts[i].k = "tgf1" /\ Kids(i, "kid") = <<>>})
\* every component and tag is written exactly once
EachOnce == Els(Mirror(Root)) = Elements
\* the expression of the design is accepted, and it is read back
Reads == IsNode(Root, Mirror(Root))
\* metadata nodes are exactly those that were put in
AllMetas == {x.m : x \in Metas(Root)} = {i \in 1..Len(parts) : parts[i].k = "meta"}
\* metadata and None leave no trace in the expression
Strip(c) == SelectSeq(c, LAMBDA x : x.k \notin {"meta", "none"})
Invisible == Mirror([Root EXCEPT !.c = Strip(@)]) = Mirror(Root)
\* splicing lists and expansions by hand changes nothing
Spliced == Mirror([Root EXCEPT !.c = Exp(@)]) = Mirror(Root)
\* changes to the tree change the expression
Different == IsNode([Root EXCEPT !.c = Append(@, [k |-> "text", s |-> <<122>>])], Mirror(Root)) = FALSE
RoundTrip == Denotes(Quote(str), str)
Emit == (EmitOn /\ Mode = "tree") => PrintT("VT-CASE " \o ToJson(Root))
=============================================================================
