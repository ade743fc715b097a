------------------------------- MODULE MCText ------------------------------
(* All strings over an alphabet of code points up to MaxLen, with the       *)
(* model-level statements of C02/C03: escaping is inert and invertible.     *)
EXTENDS Attrs, Html, Json
CONSTANTS Chars, MaxLen, EmitOn
VARIABLE s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)

TextInert ==
  LET e == EscT(s) IN
  /\ \A i \in 1..Len(e) : e[i] \notin {LT, GT}
  /\ Decode(e) = s
  /\ Matches(PatT(s), e)
  /\ Lex(e, 1, <<>>) = AddText(<<>>, s)
AttrInert ==
  LET e == EscA(s)
      tag == S("<a x=") \o <<DQ>> \o e \o <<DQ>> \o S(" y>")
  IN /\ \A i \in 1..Len(e) : e[i] \notin (AMeta \ {AMP})
     /\ Decode(e) = s
     /\ Matches(PatA(s), e)
     /\ Lex(tag, 1, <<>>) = << [k |-> "open", n |-> S("a"), sc |-> FALSE,
            a |-> << [n |-> S("x"), v |-> s], [n |-> S("y"), v |-> <<>>] >>] >>
Emit == EmitOn => PrintT("VT-CASE " \o ToJson(s))
=============================================================================
