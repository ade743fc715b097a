------------------------------- MODULE MCClass -----------------------------
(* All short class/style histories over a few tokens: token-set algebra.    *)
EXTENDS ClassStyle, Json
CONSTANTS MaxOps, EmitOn
Toks == {S("x"), S("xy"), S("a&b")}
Inits == {<<>>, S("x"), S("xy x"), S(" x  x xy ")}
VARIABLES hist, amap
vars == <<hist, amap>>
StrV(t) == [t |-> "str", s |-> t]
CtorOf(i, h) == [op |-> "ctor", kw |-> FALSE, args |->
   << << [n |-> S("id"), v |-> StrV(S("i"))] >>,
      << [n |-> CLASS, v |-> [t |-> IF h THEN "html" ELSE "str", s |-> i]] >> >>]
Init == \E i \in Inits, h \in BOOLEAN, has \in BOOLEAN :
   LET o == IF has THEN CtorOf(i, h) ELSE [op |-> "ctor", kw |-> FALSE, args |-> <<>>]
   IN hist = <<o>> /\ amap = ApplyAttr(<<>>, o)
DoAdd == \E t \in Toks, p \in BOOLEAN :
   LET o == [op |-> "add_class", v |-> StrV(t), prepend |-> p]
   IN hist' = Append(hist, o) /\ amap' = ApplyAttr(amap, o)
DoRemove == \E t \in Toks :
   hist' = Append(hist, [op |-> "remove_class", v |-> StrV(t), prepend |-> FALSE])
   /\ amap' = RemoveTok(amap, t)
DoHas == \E t \in Toks :
   hist' = Append(hist, [op |-> "has_class", v |-> StrV(t), prepend |-> FALSE]) /\ UNCHANGED amap
Next == Len(hist) <= MaxOps /\ (DoAdd \/ DoRemove \/ DoHas)

\* action properties of the token algebra
LastOp == hist[Len(hist)]
AddMakesMember == (LastOp.op = "add_class" => HasTok(amap, LastOp.v.s))
RemoveLeavesNone == (LastOp.op = "remove_class" => ~HasTok(amap, LastOp.v.s)
   /\ (HasAttr(amap, CLASS) => ClassToks(amap) # <<>>))
TokenAlgebra == [][LET o == hist'[Len(hist')]
               a == ClassToks(amap)
               b == ClassToks(amap')
           IN CASE o.op = "add_class" -> b = (IF o.prepend THEN <<PatA(o.v.s)>> \o a ELSE Append(a, PatA(o.v.s)))
                [] o.op = "remove_class" -> b = SelectSeq(a, LAMBDA x : Abs(x) # o.v.s)
                [] OTHER -> b = a]_vars
Emit == (EmitOn /\ Len(hist) = MaxOps + 1) => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
