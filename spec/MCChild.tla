------------------------------- MODULE MCChild -----------------------------
(* Small histories of child-list operations, and the list algebra.          *)
EXTENDS ChildList, Json
CONSTANTS MaxOps, MaxLists, Rich, EmitOn

Txt(c) == [k |-> "text", s |-> <<c>>]
Base == { [k |-> "text", s |-> <<97, 98>>], [k |-> "none"], [k |-> "num", s |-> <<55>>],
          [k |-> "html", s |-> <<60, 62>>], [k |-> "obj", id |-> 1] }
Nest == { [k |-> "list", c |-> <<>>],
          [k |-> "list", c |-> << [k |-> "none"], [k |-> "list", c |-> << [k |-> "num", s |-> <<56>>] >>],
                                  [k |-> "text", s |-> <<99, 100>>] >>] }
Bads == { [k |-> "bad"], [k |-> "list", c |-> << [k |-> "obj", id |-> 2], [k |-> "bad"] >>] }
Arg1 == Base \cup Nest \cup Bads
ArgIt == {x \in Base : x.k \in {"text", "html"}} \cup Nest \cup Bads
         \cup { [k |-> "iter", c |-> << [k |-> "num", s |-> <<57>>], [k |-> "none"], [k |-> "obj", id |-> 3] >>],
                [k |-> "iter", c |-> << [k |-> "obj", id |-> 3], [k |-> "bad"] >>] }

VARIABLES hist, heap
vars == <<hist, heap>>
O(op, r, a, i) == [op |-> op, r |-> r, a |-> a, i |-> i, from |-> <<>>, to |-> <<>>, step |-> 1]
Do(o) == /\ hist' = Append(hist, o) /\ heap' = ApplyChild(heap, o)

S0 == << [k |-> "text", s |-> <<120>>], [k |-> "obj", id |-> 4], [k |-> "text", s |-> <<121>>] >>
Init == \E a \in { <<>>, S0 } : hist = << O("new", 0, a, 0) >> /\ heap = ApplyChild(<<>>, O("new", 0, a, 0))
Refs == { [k |-> "ref", i |-> j] : j \in 1..Len(heap) }
More == Len(heap) < MaxLists
Next == /\ Len(hist) <= MaxOps
        /\ \E r \in 1..Len(heap) :
             \/ \E x \in Arg1 \cup Refs : Do(O("append", r, <<x>>, 0))
             \/ \E x, y \in (IF Rich THEN Arg1 ELSE {}) : Do(O("append", r, <<x, y>>, 0))
             \/ \E x \in Arg1 \cup Refs, i \in {-1, 0, 1, 9} : Do(O("insert", r, <<x>>, i))
             \/ \E x \in ArgIt \cup Refs : Do(O("extend", r, <<x>>, 0))
             \/ \E x \in ArgIt \cup Refs : Do(O("iadd", r, <<x>>, 0))
             \/ Do(O("imul", r, <<>>, 2))
             \/ More /\ \E x \in ArgIt \cup Refs : Do(O("add", r, <<x>>, 0))
             \/ More /\ \E x \in {y \in ArgIt : y.k # "html"} : Do(O("radd", r, <<x>>, 0))
             \/ More /\ \E n \in {0, 2} : Do(O("mul", r, <<>>, n))
             \/ More /\ \E a, b \in {<<>>, <<1>>, <<-1>>}, s \in {1, -1, 2} :
                  Do([O("slice", r, <<>>, 0) EXCEPT !.from = a, !.to = b, !.step = s])
             \/ More /\ \E x, y \in Arg1 \cup Refs : Do(O("new", 0, <<x, y>>, 0))

Normal == \A i \in 1..Len(heap) : \A j \in 1..Len(heap[i]) : Stored(heap[i][j])
\* algebra, on every reachable list
Algebra == \A i \in 1..Len(heap) :
  LET l == heap[i]
      asList == [k |-> "list", c |-> l]
  IN /\ Flatten(heap, l) = l
     /\ Flatten(heap, <<asList>>) = l
     /\ PyInsert(l, Len(l), <<Txt(1)>>) = Append(l, Txt(1))
     /\ \A k \in 0..Len(l) : Slice(l, <<>>, <<k>>, 1) \o Slice(l, <<k>>, <<>>, 1) = l
     /\ Slice(l, <<>>, <<>>, -1) = Reverse(l)
     /\ Repeat(l, 2) = l \o l
\* failed operations are no-ops; others change at most their receiver
Frame == [][LET o == hist'[Len(hist')]
            IN /\ (MustRaise(heap, o) => heap' = heap)
               /\ \A i \in 1..Len(heap) :
                    (i # o.r \/ o.op \in {"new", "add", "radd", "slice", "mul"}) => heap'[i] = heap[i]]_vars
Emit == (EmitOn /\ Len(hist) = MaxOps + 1) => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
