------------------------------ MODULE ClassStyle ---------------------------
(* class as a token list, style as a declaration string, css() (C16).       *)
(* Token patterns: a plain part keeps its characters with escapes pending   *)
(* (negative), an HTML() part is literal.                                   *)
EXTENDS Attrs

PyAsciiSpace == {TAB, LF, FF, CR, SPC, -LF, -CR}
ClassToks(st) == IF HasAttr(st, CLASS) THEN SplitWs(GetAttr(st, CLASS).p, PyAsciiSpace) ELSE <<>>
ClassH(st) == HasAttr(st, CLASS) /\ GetAttr(st, CLASS).h

\* a token of an HTML() value that itself contains references has two readings
\* (its spelling, its decoded text); the property does not choose between them
Ambiguous(tk) == \E i \in 1..Len(tk) : tk[i] = AMP
HasTok(st, t) == \E i \in 1..Len(ClassToks(st)) : Abs(ClassToks(st)[i]) = t
Unclear(st, t) == ClassH(st) /\ \E i \in 1..Len(ClassToks(st)) :
   LET tk == ClassToks(st)[i]
   IN \/ Ambiguous(tk) /\ (Abs(tk) = t \/ Decode(Abs(tk)) = t)
      \/ Canon(tk) = t /\ Abs(tk) # t    \* t spells out the escaped form

\* stored line-break references of an HTML() value separate tokens
RECURSIVE Unbreak(_)
Unbreak(s) ==
  IF Len(s) < 5 THEN s
  ELSE IF SubSeq(s, 1, 5) = S("&#10;") \/ SubSeq(s, 1, 5) = S("&#13;")
       THEN <<SPC>> \o Unbreak(SubSeq(s, 6, Len(s)))
       ELSE <<s[1]>> \o Unbreak(Tail(s))

RemoveTok(st, t) ==
  IF ~HasAttr(st, CLASS) THEN st
  ELSE LET rest == SelectSeq(ClassToks(st), LAMBDA tk : Abs(tk) # t)
       IN IF rest = <<>> THEN Del(st, CLASS)
          ELSE Put(st, CLASS, [p |-> Join(rest, <<SPC>>), h |-> ClassH(st)])

EndsSemi(v) == v.s # <<>> /\ v.s[Len(v.s)] = SEMI

\* css(): underscores and camelCase to hyphenated lower case
IsUpper(c) == c >= 65 /\ c <= 90
CssName(k) == FoldLeft(LAMBDA a, c :
    IF IsUpper(c) THEN a \o <<HYPHEN, c + 32>>
    ELSE IF c = UNDERSCORE THEN Append(a, HYPHEN) ELSE Append(a, c), <<>>, k)
CssText(args, collapse) ==
  FoldLeft(LAMBDA a, x : IF x.v.t = "none" THEN a
                         ELSE a \o CssName(x.n) \o <<58>> \o x.v.s \o <<SEMI>> \o collapse,
           <<>>, args)
CssNone(args) == \A i \in 1..Len(args) : args[i].v.t = "none"
=============================================================================
