------------------------------ MODULE JudgeDet -----------------------------
(* Judges everything observed of one construction in all processes and      *)
(* histories ("obs"), tables of head_content names ("names") and documents  *)
(* that include head contents ("doc").                                      *)
EXTENDS Det, JudgeTrace

DetStart(line) == <<>>

DetStep(memo, e) ==
  CASE e.op = "obs" ->
         [bad |-> IF Agrees(memo, e.m, e.o) THEN {} ELSE {"output-differs-" \o e.m},
          st |-> Learn(memo, e.m, e.o)]
    [] e.op = "names" ->
         LET S == ToSet(e.pairs)
         IN [st |-> memo,
             bad |-> IF Functional(S) /\ Injective(S) THEN {}
                     ELSE LET same == {p[1] : p \in S}
                          IN IF Functional(S) THEN {"different-content-under-one-name"}
                             ELSE {"one-content-under-different-names"}]
    [] e.op = "doc" ->
         LET firsts == Firsts(e.contents)
             at(c) == SelectInSeq(e.contents, LAMBDA x : x = c)
         IN [st |-> memo,
             bad |-> (IF ~e.ok THEN {"document-raised"} ELSE
                      (IF e.deps = [i \in 1..Len(firsts) |-> e.names[at(firsts[i])]] THEN {} ELSE {"dependency-order"})
                      \cup (IF e.found = [i \in 1..Len(firsts) |-> e.tokens[at(firsts[i])]] THEN {}
                            ELSE {"content-not-included-exactly-once"}))]
=============================================================================
