------------------------------- MODULE Text -------------------------------
(* Text as sequences of Unicode code points, HTML escaping and character    *)
(* references.  A *pattern* is a sequence of integers in which c >= 0 is    *)
(* the literal code point c and -c is "one character reference that         *)
(* decodes to c": properties C02/C03/C04 fix what a reference must decode   *)
(* to, not how it is spelled.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = ch]
\* TLA+ string -> code points
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]

TAB == 9   LF == 10   FF == 12   CR == 13   SPC == 32
DQ == 34   AMP == 38  SQ == 39   SLASH == 47 SEMI == 59
LT == 60   EQ == 61   GT == 62   BANG == 33  QM == 63
HASH == 35

HtmlSpace == {TAB, LF, FF, CR, SPC}

TMeta == {AMP, LT, GT}                      \* text: & < >
AMeta == {AMP, LT, GT, DQ, SQ, CR, LF}      \* attribute values

PatT(s) == [i \in 1..Len(s) |-> IF s[i] \in TMeta THEN -s[i] ELSE s[i]]
PatA(s) == [i \in 1..Len(s) |-> IF s[i] \in AMeta THEN -s[i] ELSE s[i]]

Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* join a sequence of sequences with a separator
Join(ss, sep) ==
  IF ss = <<>> THEN <<>>
  ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))

Rep(c, n) == [i \in 1..n |-> c]

\* The canonical spelling of a reference, used by the operational model.
RefName == [c \in AMeta |->
   CASE c = AMP -> S("&amp;") [] c = LT -> S("&lt;")   [] c = GT -> S("&gt;")
     [] c = DQ -> S("&quot;") [] c = SQ -> S("&apos;") [] c = CR -> S("&#13;")
     [] c = LF -> S("&#10;")]
Canon(p) ==
  IF \E i \in 1..Len(p) : p[i] < 0
  THEN FoldLeft(LAMBDA a, c : a \o (IF c < 0 THEN RefName[-c] ELSE <<c>>), <<>>, p)
  ELSE p

EscT(s) == Canon(PatT(s))
EscA(s) == Canon(PatA(s))

---------------------------------------------------------------------------
(* Decoding character references.                                           *)
IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48
             ELSE IF c >= 97 /\ c <= 102 THEN c - 87
             ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
NamedRefs == << <<S("amp"), AMP>>, <<S("lt"), LT>>, <<S("gt"), GT>>,
                <<S("quot"), DQ>>, <<S("apos"), SQ>>,
                <<S("AMP"), AMP>>, <<S("LT"), LT>>, <<S("GT"), GT>>, <<S("QUOT"), DQ>> >>

\* value of the reference body (between '&' and ';'), -1 when it is none we know
RefVal(b) ==
  IF b = <<>> THEN -1
  ELSE IF b[1] # HASH
  THEN LET k == SelectInSeq(NamedRefs, LAMBDA r : r[1] = b)
       IN IF k = 0 THEN -1 ELSE NamedRefs[k][2]
  ELSE IF Len(b) >= 3 /\ b[2] \in {120, 88}
  THEN IF Len(b) <= 8 /\ \A i \in 3..Len(b) : HexVal(b[i]) >= 0
       THEN FoldLeft(LAMBDA a, c : a * 16 + HexVal(c), 0, SubSeq(b, 3, Len(b)))
       ELSE -1
  ELSE IF Len(b) >= 2 /\ Len(b) <= 9 /\ \A i \in 2..Len(b) : IsDigit(b[i])
       THEN FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, SubSeq(b, 2, Len(b)))
       ELSE -1

\* index of the ';' that ends a reference starting at s[i] = '&' (0: none)
RefSemi(s, i) ==
  LET hi == IF i + 10 > Len(s) THEN Len(s) ELSE i + 10
      c == {j \in (i + 1)..hi : s[j] = SEMI}
  IN IF c = {} THEN 0 ELSE CHOOSE j \in c : \A k \in c : j <= k

\* position after a reference to c that starts at s[i], or 0
RefEnd(s, i, c) ==
  IF i > Len(s) \/ s[i] # AMP THEN 0
  ELSE LET j == RefSemi(s, i)
       IN IF j = 0 THEN 0
          ELSE IF RefVal(SubSeq(s, i + 1, j - 1)) = c THEN j + 1 ELSE 0

\* one pattern element at position pos of s
MatchStep(s, pos, p) ==
  IF pos = 0 THEN 0
  ELSE IF p >= 0 THEN (IF pos <= Len(s) /\ s[pos] = p THEN pos + 1 ELSE 0)
  ELSE RefEnd(s, pos, -p)

\* position after pattern pat matched from pos, 0 when it does not match
MatchFrom(pat, s, pos) == FoldLeft(LAMBDA q, p : MatchStep(s, q, p), pos, pat)

Matches(pat, s) == pat = s \/ MatchFrom(pat, s, 1) = Len(s) + 1

\* decode all references of s
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(s, i, acc) ==
  LET j == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA c : c = AMP)
  IN IF j = 0 THEN acc \o SubSeq(s, i, Len(s))
     ELSE LET e == RefSemi(s, j)
              v == IF e = 0 THEN -1 ELSE RefVal(SubSeq(s, j + 1, e - 1))
          IN IF v = -1
             THEN DecodeFrom(s, j + 1, acc \o SubSeq(s, i, j))
             ELSE DecodeFrom(s, e + 1, acc \o SubSeq(s, i, j - 1) \o <<v>>)
Decode(s) == DecodeFrom(s, 1, <<>>)

---------------------------------------------------------------------------
Trim(s, sp) ==
  LET a == SelectInSeq(s, LAMBDA c : c \notin sp)
      b == SelectLastInSeq(s, LAMBDA c : c \notin sp)
  IN IF a = 0 THEN <<>> ELSE SubSeq(s, a, b)

\* split on maximal runs of whitespace, dropping empty tokens (str.split())
SplitWs(s, sp) ==
  LET f == FoldLeft(LAMBDA a, c :
               IF c \in sp
               THEN IF a.cur = <<>> THEN a
                    ELSE [toks |-> Append(a.toks, a.cur), cur |-> <<>>]
               ELSE [toks |-> a.toks, cur |-> Append(a.cur, c)],
             [toks |-> <<>>, cur |-> <<>>], s)
  IN IF f.cur = <<>> THEN f.toks ELSE Append(f.toks, f.cur)

\* does sub occur in s at position i
OccursAt(sub, s, i) ==
  i + Len(sub) - 1 <= Len(s) /\ \A k \in 1..Len(sub) : s[i + k - 1] = sub[k]
\* first position >= i at which sub occurs, 0 if none
RECURSIVE FindFrom(_, _, _)
FindFrom(sub, s, i) ==
  IF i + Len(sub) - 1 > Len(s) THEN 0
  ELSE LET j == SelectInSubSeq(s, i, Len(s), LAMBDA c : c = sub[1])
       IN IF j = 0 THEN 0
          ELSE IF OccursAt(sub, s, j) THEN j ELSE FindFrom(sub, s, j + 1)

Lower(s) == [i \in 1..Len(s) |-> IF s[i] >= 65 /\ s[i] <= 90 THEN s[i] + 32 ELSE s[i]]
=============================================================================
