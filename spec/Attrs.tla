-------------------------------- MODULE Attrs ------------------------------
(* The attribute map of a tag as a state machine (C03, C15, C16).           *)
(* A supplied value is [t, s] with t in str/html/num/true/false/none.       *)
(* A stored value is [n |-> name, p |-> pattern, h |-> some part is HTML].  *)
EXTENDS Tree

HYPHEN == 45  UNDERSCORE == 95

\* one trailing underscore removed, the other underscores become hyphens
NormName(n) ==
  LET m == IF n # <<>> /\ n[Len(n)] = UNDERSCORE THEN SubSeq(n, 1, Len(n) - 1) ELSE n
  IN [i \in 1..Len(m) |-> IF m[i] = UNDERSCORE THEN HYPHEN ELSE m[i]]

Dropped(v) == v.t \in {"none", "false"}
ValPat(v) == CASE v.t = "true" -> <<>>
               [] v.t = "html" -> v.s
               [] OTHER -> PatA(v.s)
ValOf(v) == [p |-> ValPat(v), h |-> v.t = "html"]
JoinVal(a, b) == [p |-> a.p \o <<SPC>> \o b.p, h |-> a.h \/ b.h]

IndexOf(st, nm) == SelectInSeq(st, LAMBDA a : a.n = nm)
HasAttr(st, nm) == IndexOf(st, nm) # 0
GetAttr(st, nm) == st[IndexOf(st, nm)]

\* set (replace in place, or append at the end)
Put(st, nm, val) ==
  LET i == IndexOf(st, nm)
      e == [n |-> nm, p |-> val.p, h |-> val.h]
  IN IF i = 0 THEN Append(st, e) ELSE [st EXCEPT ![i] = e]
Del(st, nm) == SelectSeq(st, LAMBDA a : a.n # nm)

\* everything given in one call, in argument order: repeated names are joined
\* by single spaces.  pairs: <<[n (already normal), val]>>
MergeCall(pairs) ==
  FoldLeft(LAMBDA acc, pr :
     LET i == IndexOf(acc, pr.n)
     IN IF i = 0 THEN Append(acc, [n |-> pr.n, p |-> pr.val.p, h |-> pr.val.h])
        ELSE LET j == JoinVal(acc[i], pr.val)
             IN [acc EXCEPT ![i] = [n |-> pr.n, p |-> j.p, h |-> j.h]],
   <<>>, pairs)

ArgPairs(args) ==
  FoldLeft(LAMBDA acc, a : IF Dropped(a.v) THEN acc
                           ELSE Append(acc, [n |-> NormName(a.n), val |-> ValOf(a.v)]),
           <<>>, Cat(args))
UpdateWith(st, pairs) ==
  FoldLeft(LAMBDA s, a : Put(s, a.n, [p |-> a.p, h |-> a.h]), st, MergeCall(pairs))

CLASS == S("class")
STYLE == S("style")

\* add_class / add_style: the old value and the new one given in one call
AddTo(st, nm, val, prepend) ==
  LET old == IF HasAttr(st, nm) THEN << [n |-> nm, val |-> GetAttr(st, nm)] >> ELSE <<>>
      new == << [n |-> nm, val |-> val] >>
  IN UpdateWith(st, IF prepend THEN new \o old ELSE old \o new)

\* one supply operation
ApplyAttr(st, o) ==
  CASE o.op \in {"ctor", "update", "attrdict"} -> UpdateWith(st, ArgPairs(o.args))
    [] o.op = "set" -> IF Dropped(o.v) THEN st ELSE Put(st, NormName(o.n), ValOf(o.v))
    [] o.op = "add_class" -> AddTo(st, CLASS, ValOf(o.v), o.prepend)
    [] o.op = "add_style" -> AddTo(st, STYLE, ValOf(o.v), o.prepend)
ApplyAll(ops) == FoldLeft(ApplyAttr, <<>>, ops)
=============================================================================
