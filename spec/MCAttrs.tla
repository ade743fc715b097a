------------------------------- MODULE MCAttrs -----------------------------
(* Small attribute histories: a constructor call with up to MaxArgs one-    *)
(* pair arguments, then up to MaxOps update / item-assignment steps.        *)
EXTENDS Attrs, Json
CONSTANTS MaxArgs, MaxOps, Rich, EmitOn

NameSet == {S("a_"), S("a-b"), S("a_b")} \cup (IF Rich THEN {S("a"), S("a__")} ELSE {})
ValSet == {[t |-> "str", s |-> S("x")], [t |-> "html", s |-> S("<")], [t |-> "none", s |-> <<>>]}
          \cup (IF Rich THEN {[t |-> "true", s |-> <<>>], [t |-> "num", s |-> S("0")],
                              [t |-> "false", s |-> <<>>]} ELSE {})
Pairs == {[n |-> n, v |-> v] : n \in NameSet, v \in ValSet}

VARIABLES hist, amap
vars == <<hist, amap>>
Init == hist = << [op |-> "ctor", args |-> <<>>, kw |-> FALSE] >> /\ amap = <<>>

MoreArg == /\ Len(hist) = 1 /\ Len(hist[1].args) < MaxArgs
           /\ \E p \in Pairs :
                LET h == [hist EXCEPT ![1].args = Append(@, <<p>>)]
                IN hist' = h /\ amap' = ApplyAll(h)
SetItem == /\ Len(hist) <= MaxOps
           /\ \E p \in Pairs :
                LET o == [op |-> "set", n |-> p.n, v |-> p.v]
                IN hist' = Append(hist, o) /\ amap' = ApplyAttr(amap, o)
Update == /\ Len(hist) <= MaxOps
          /\ \E p \in Pairs, kw \in BOOLEAN :
               LET o == [op |-> "update", args |-> << <<p>> >>, kw |-> kw]
               IN hist' = Append(hist, o) /\ amap' = ApplyAttr(amap, o)
Next == MoreArg \/ SetItem \/ Update

Names == [i \in 1..Len(amap) |-> amap[i].n]
Unique == \A i, j \in 1..Len(amap) : amap[i].n = amap[j].n => i = j
Normal == \A i \in 1..Len(amap) : UNDERSCORE \notin {amap[i].n[k] : k \in 1..Len(amap[i].n)}
\* every non-dropped name given anywhere is present, ordered by first appearance
Given == FoldLeft(LAMBDA a, o :
   FoldLeft(LAMBDA b, x : IF Dropped(x.v) \/ \E i \in 1..Len(b) : b[i] = NormName(x.n) THEN b
                          ELSE Append(b, NormName(x.n)),
            a, IF o.op = "set" THEN << [n |-> o.n, v |-> o.v] >> ELSE Cat(o.args)),
   <<>>, hist)
FirstAppearance == Names = Given
\* a later single-value operation replaces
LastReplaces == Len(hist) > 1 =>
  LET o == hist[Len(hist)]
      x == IF o.op = "set" THEN [n |-> o.n, v |-> o.v] ELSE o.args[1][1]
  IN Dropped(x.v) \/ GetAttr(amap, NormName(x.n)).p = ValPat(x.v)
Emit == EmitOn => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
