-------------------------------- MODULE MCExp ------------------------------
(* Expansion of tagifiable children (C09).  The library edits the list it   *)
(* iterates over; the machine below is that algorithm (last to first, slice *)
(* replacement), started from every child list of at most MaxLen items, and *)
(* the invariant says the untouched part and the expanded part always add   *)
(* up to the declarative ExpandSeq.                                         *)
EXTENDS Doc, Json
CONSTANTS MaxLen, EmitOn

Tx(ch) == [k |-> "text", s |-> <<ch>>]
Tg(lst, c) == [k |-> "tgf", lst |-> lst, r |-> FALSE, c |-> c]
Dv(c) == [k |-> "tag", n |-> S("div"), ws |-> TRUE, a |-> <<>>, c |-> c]
X1 == Tg(TRUE, <<>>)
X2 == Tg(TRUE, <<Tx(112)>>)
X3 == Tg(TRUE, <<Tx(113), Dv(<<>>)>>)
X4 == Tg(FALSE, <<Dv(<<Tx(114)>>)>>)
X5 == Tg(FALSE, <<Tx(115)>>)
\* expansions holding expansions
X6 == Tg(TRUE, <<X1, Tx(116), X3>>)
X7 == Tg(FALSE, <<X3>>)
X8 == Dv(<<X2, X1>>)
Items == {Tx(97), Dv(<<Tx(98)>>), [k |-> "meta"], X1, X2, X3, X4, X5, X6, X7, X8}

VARIABLES orig, cp, i
vars == <<orig, cp, i>>
Init == /\ orig \in UNION {[1..m -> Items] : m \in 1..MaxLen}
        /\ cp = orig /\ i = Len(orig)
\* a Tag child tagifies its own list; a tagifiable is replaced by its expansion
Expanded(x) == IF x.k = "tag" THEN << [x EXCEPT !.c = ExpandSeq(x.c)] >> ELSE ExpandSeq(x.c)
Step == /\ i > 0
        /\ cp' = IF cp[i].k \in {"tag", "tgf"}
                 THEN SubSeq(cp, 1, i - 1) \o Expanded(cp[i]) \o SubSeq(cp, i + 1, Len(cp))
                 ELSE cp
        /\ i' = i - 1 /\ UNCHANGED orig
Next == Step

LoopInv == ExpandSeq(SubSeq(orig, 1, i)) \o SubSeq(cp, i + 1, Len(cp)) = ExpandSeq(orig)
PrefixInv == SubSeq(cp, 1, i) = SubSeq(orig, 1, i)
NoneLeft == i = 0 => cp = ExpandSeq(orig) /\ ~HasTgf(cp)
\* ExpandSeq is a fixed point, and distributes over concatenation
Fixed == ExpandSeq(ExpandSeq(orig)) = ExpandSeq(orig)
Emit == (EmitOn /\ i = Len(orig)) => PrintT("VT-CASE " \o ToJson(orig))
=============================================================================
