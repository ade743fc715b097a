------------------------------- MODULE MCDet -------------------------------
(* Interpreter processes that build, render and discard constructions.      *)
(* Every process has a hash seed, a counter and a cache.  Variant "ordered" *)
(* is the design (insertion-ordered resolution, content-derived names); the *)
(* others break it and TLC must find that out:                              *)
(*  "set" resolves through a set, "counter" names by a counter,             *)
(*  "cache" caches a rendering under its unordered names,                   *)
(*  "short" names by an abbreviated content.                                *)
EXTENDS Det, Json
CONSTANTS Variant, Procs, MaxOps, EmitOn

D(n) == [k |-> "dep", n |-> n]
HC(x) == [k |-> "head", n |-> x]
Items == 1..3
Of(c) == CASE c = 1 -> << D("a"), HC(<<1>>), D("b"), D("a") >>
           [] c = 2 -> << D("b"), HC(<<1>>), D("a") >>
           [] c = 3 -> << HC(<<1>>), HC(<<1, 2>>), HC(<<1>>) >>

VARIABLES proc, hist, log, names
vars == <<proc, hist, log, names>>
New == [ctr |-> 0, cache |-> <<>>, inst |-> [c \in Items |-> <<>>], up |-> {}]
Init == /\ proc = [p \in 1..Procs |-> New]
        /\ hist = <<>> /\ log = {} /\ names = {}

NameOf(x, ctr) == IF x.k = "dep" THEN <<"d", x.n>>
                  ELSE CASE Variant = "counter" -> <<"h", ctr>>
                         [] Variant = "short" -> <<"h", x.n[1]>>
                         [] OTHER -> <<"h", x.n>>
\* the names of a construction's dependencies when it is built
Built(p, c) == [i \in 1..Len(Of(c)) |-> NameOf(Of(c)[i], proc[p].ctr + i)]
Rank(n) == Len(ToString(n)) * 10 + (IF n[1] = "d" THEN (IF n[2] = "a" THEN 1 ELSE 2) ELSE 3)
\* odd processes iterate sets one way, even ones the other
ByHash(p, S) == SetToSortSeq(S, LAMBDA a, b : IF p % 2 = 1 THEN Rank(a) < Rank(b) ELSE Rank(a) > Rank(b))
Resolved(p, l) == IF Variant = "set" THEN ByHash(p, ToSet(l)) ELSE Firsts(l)
Key(l) == ToSet(l)
CacheHit(p, l) == SelectInSeq(proc[p].cache, LAMBDA x : x.m = Key(l))
Out(p, l) == IF Variant = "cache" /\ CacheHit(p, l) # 0 THEN proc[p].cache[CacheHit(p, l)].o ELSE Resolved(p, l)

Log(op, p, c) == hist' = Append(hist, [op |-> op, p |-> p, c |-> c])
Build(p, c) == /\ proc' = [proc EXCEPT ![p].inst[c] = Built(p, c), ![p].up = @ \cup {c}, ![p].ctr = @ + Len(Of(c))]
               /\ names' = names \cup {<<Of(c)[i].n, Built(p, c)[i]>> : i \in {j \in 1..Len(Of(c)) : Of(c)[j].k = "head"}}
               /\ Log("build", p, c) /\ UNCHANGED log
Render(p, c) == /\ c \in proc[p].up
                /\ LET l == proc[p].inst[c]
                   IN /\ log' = log \cup {<<c, Out(p, l)>>}
                      /\ proc' = [proc EXCEPT ![p].cache = IF CacheHit(p, l) # 0 THEN @
                                                            ELSE Append(@, [m |-> Key(l), o |-> Out(p, l)])]
                /\ Log("render", p, c) /\ UNCHANGED names
\* the caller changes the built objects and throws them away
Trash(p, c) == /\ c \in proc[p].up /\ proc' = [proc EXCEPT ![p].up = @ \ {c}]
               /\ Log("trash", p, c) /\ UNCHANGED <<log, names>>
Next == /\ Len(hist) < MaxOps
        /\ \E p \in 1..Procs, c \in Items : Build(p, c) \/ Render(p, c) \/ Trash(p, c)

Deterministic == \A x, y \in log : x[1] = y[1] => x[2] = y[2]
NamesAreContent == Functional(names) /\ Injective(names)
Emit == (EmitOn /\ Len(hist) = MaxOps /\ \E i \in 1..Len(hist) : hist[i].op = "render") => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
