-------------------------------- MODULE MCUrl ------------------------------
(* All short paths over hostile characters: encoding and decoding (C12).    *)
EXTENDS Files, Json
CONSTANTS MaxLen, EmitOn
Chars == {97, 46, 47, 37, 52, 49, 32, 35, 63, 43, 38, 92, 58, 34, 233, 26085, 128512}
VARIABLE s
vars == s
Init == s = <<>>
Next == Len(s) < MaxLen /\ \E c \in Chars : s' = Append(s, c)
D0 == [name |-> S("n"), v |-> S("1"), m |-> 1, src |-> [t |-> "sub", s |-> <<>>], dir |-> <<>>, all |-> FALSE,
       script |-> <<>>, stylesheet |-> <<>>, meta |-> <<>>]
RoundTrip == Encodes(Quoted(s), s)
\* the raw path is a correct URL only when nothing in it needs encoding
RawOnlyIfSafe == Encodes(s, s) => \A i \in 1..Len(s) : s[i] \notin {32, 35, 63, 34, 92, 233, 26085, 128512}
\* URL and copier agree for every such path, prefix and flag
Agree == \A iv \in BOOLEAN, pre \in {<<>>, S("lib"), S("../x")} :
  LET u == BaseUrl(D0, pre, iv) \o <<SLASH>> \o Quoted(s)
      f == UrlPath(<<S("r"), S("q")>>, <<S("o")>>, u)
      abs == Resolved(<<S("r"), S("q"), S("o")>>, pre)
      dest == SubSeq(abs, 3, Len(abs))
  IN /\ s # <<>> => LocalUrl(D0, pre, iv, s, u)
     /\ (\A g \in ToSet(SegsOf(Utf8(s))) : g # <<46, 46>>) =>
          f = Target(dest, D0, iv) \o Fold(<<>>, SegsOf(Utf8(s)))
Emit == (EmitOn /\ s # <<>>) => PrintT("VT-CASE " \o ToJson(s))
=============================================================================
