------------------------------ MODULE MCSerial -----------------------------
(* All short interleavings of text pieces and serialised dependencies:      *)
(* the scanner recovers exactly the segments.                               *)
EXTENDS Serial, Json
CONSTANTS MaxSegs, EmitOn

Pieces == [x |-> S("a<b>&amp;"), nl |-> <<LF, SPC>>, ph |-> S("<!--deps-->"), op |-> S("<script type=\"application/json\">"),
           cl |-> CloseScript, hd |-> S("<head></head>"), ch |-> S("<!-"), em |-> S("-deps-->")]
\* payloads: plain, hostile, empty-ish
Payloads == << S("{'n': 1}"), S("</script></SCRIPT </ScRiPt <\\/script>"), S("<!--<script></scripT") >>
Kinds == DOMAIN Pieces \cup {"1", "2", "3"}
Idx == [i \in {"1", "2", "3"} |-> CASE i = "1" -> 1 [] i = "2" -> 2 [] OTHER -> 3]
Seg(k) == IF k \in DOMAIN Idx THEN [t |-> "ser", s |-> Element(Payloads[Idx[k]]), d |-> Idx[k]]
          ELSE [t |-> "text", s |-> Pieces[k], d |-> 0]

VARIABLE word
vars == word
Init == word = <<>>
Next == Len(word) < MaxSegs /\ \E k \in Kinds : word' = Append(word, k)
Segs == [i \in 1..Len(word) |-> Seg(word[i])]

AllSealed == \A i \in 1..3 : Sealed(Element(Payloads[i]))
Recovers == LET r == ScanText(TextOf(Segs))
               ss == Sers(Segs)
           IN r.rest = RestOf(Segs) /\ r.found = [i \in 1..Len(ss) |-> ss[i].s]
\* scanning what is left finds nothing more
Once == ScanText(RestOf(Segs)).found = <<>>
\* only the first placeholder is replaced
FirstOnly == LET r == RestOf(Segs)
                 n == ReplaceFirst(r, Pieces.ph, <<64>>)
             IN FindFrom(Pieces.ph, r, 1) # 0 => Len(n) = Len(r) - Len(Pieces.ph) + 1
Emit == (EmitOn /\ word # <<>>) => PrintT("VT-CASE " \o ToJson(word))
=============================================================================
