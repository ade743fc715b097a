------------------------------- MODULE MCTree ------------------------------
(* All trees up to MaxNodes nodes over Alphabet, built by Open/Leaf/Close   *)
(* transitions (a state is a pre-order word).  Invariants are the model-    *)
(* level statements of C01, C05, C06, C07; every complete tree is emitted   *)
(* for replay into the library.                                             *)
EXTENDS Layout, Html, Json

CONSTANTS Alphabet, MaxNodes, EmitOn

Openers == {"B", "I", "W", "X", "P", "Z"}
Leaves  == {"T", "H", "R", "M", "E", "L"}

VARIABLES word, depth, n
vars == <<word, depth, n>>

Letter(i) == 97 + ((i - 1) % 26)
Node(op, i) ==
  CASE op = "B" -> [k |-> "tag", n |-> S("div"), ws |-> TRUE, a |-> <<>>, c |-> <<>>]
    [] op = "I" -> [k |-> "tag", n |-> S("span"), ws |-> FALSE, a |-> <<>>, c |-> <<>>]
    [] op = "W" -> [k |-> "tag", n |-> S("br"), ws |-> FALSE, a |-> <<>>, c |-> <<>>]
    [] op = "X" -> [k |-> "tag", n |-> S("hr"), ws |-> TRUE, a |-> <<>>, c |-> <<>>]
    [] op = "P" -> [k |-> "tag", n |-> S("pre"), ws |-> TRUE, c |-> <<>>,
                    a |-> <<[n |-> S("id"), v |-> <<Letter(i)>>, h |-> FALSE]>>]
    [] op = "Z" -> [k |-> "tag", n |-> S("script"), ws |-> TRUE, a |-> <<>>, c |-> <<>>]
    [] op = "T" -> [k |-> "text", s |-> <<Letter(i)>>]
    [] op = "E" -> [k |-> "text", s |-> <<>>]
    [] op = "L" -> [k |-> "text", s |-> <<Letter(i), LF, SPC, Letter(i)>>]
    [] op = "H" -> [k |-> "html", s |-> <<Letter(i)>>]
    [] op = "R" -> [k |-> "repr", s |-> <<Letter(i)>>]
    [] op = "M" -> [k |-> "meta"]

\* the sibling list a complete word denotes
Build(w) ==
  LET push(st, nd) == [st EXCEPT ![Len(st)].c = Append(@, nd)]
      step(a, i) ==
        IF w[i] \in Openers THEN Append(a, Node(w[i], i))
        ELSE IF w[i] = ")" THEN push(SubSeq(a, 1, Len(a) - 1), a[Len(a)])
        ELSE push(a, Node(w[i], i))
  IN FoldLeft(step, << [k |-> "root", c |-> <<>>] >>, [i \in 1..Len(w) |-> i])[1].c

Init == word = <<>> /\ depth = 0 /\ n = 0
Open == /\ n < MaxNodes
        /\ \E o \in Openers \cap Alphabet : word' = Append(word, o)
        /\ depth' = depth + 1 /\ n' = n + 1
Leaf == /\ n < MaxNodes
        /\ \E o \in Leaves \cap Alphabet : word' = Append(word, o)
        /\ n' = n + 1 /\ UNCHANGED depth
Close == /\ depth > 0 /\ word' = Append(word, ")") /\ depth' = depth - 1 /\ UNCHANGED n
Next == Open \/ Leaf \/ Close

Complete == depth = 0 /\ n > 0

OnlyText(w) == \A i \in 1..Len(w) : w[i] \notin {"H", "R", "Z"}

LayoutInv == Complete =>
  LET c == Build(word) IN
  ValidNest(c) => \A aw \in BOOLEAN, k \in {0, 1} :
                    OpList(c, k, <<LF>>, aw, FALSE) = DeclList(c, k, <<LF>>, aw)
GapInv == Complete =>
  LET c == Build(word) IN
  \A aw \in BOOLEAN : GapOK(c, OpList(c, 0, <<LF>>, aw, FALSE), 0, <<LF>>)
MetaInv == Complete =>
  LET c == Build(word) IN
  \A aw \in BOOLEAN :
     OpList(c, 1, <<LF>>, aw, FALSE) = OpList(EraseSeq(c), 1, <<LF>>, aw, FALSE)
TokInv == (Complete /\ OnlyText(word)) =>
  LET c == Build(word) IN Tokens(OpList(c, 0, <<LF>>, TRUE, FALSE)) = ListToks(c)

Emit == (EmitOn /\ Complete) => PrintT("VT-CASE " \o ToJson(Build(word)))
=============================================================================
