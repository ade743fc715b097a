-------------------------------- MODULE MCHeap -----------------------------
(* Histories of tagify() and mutations over a heap of trees: copies are     *)
(* independent, equal and a fixed point.                                    *)
EXTENDS Heap, Json
CONSTANTS MaxOps, EmitOn

\* allocation of a value on a heap: [h, i]
RECURSIVE Alloc(_, _)
AllocSeq(h, vs) ==
  FoldLeft(LAMBDA a, v : LET r == Alloc(a.h, v) IN [h |-> r.h, c |-> Append(a.c, r.i)],
           [h |-> h, c |-> <<>>], vs)
Alloc(h, v) ==
  CASE v.k = "tag" ->
         LET r == AllocSeq(h, v.c)
             n == Len(r.h)
         IN [h |-> r.h \o << [k |-> "list", c |-> r.c], [k |-> "attrs", a |-> v.a],
                             [k |-> "tag", n |-> v.n, ws |-> v.ws, at |-> n + 2, ch |-> n + 1] >>,
             i |-> n + 3]
    [] v.k = "list" -> LET r == AllocSeq(h, v.c)
                       IN [h |-> Append(r.h, [k |-> "list", c |-> r.c]), i |-> Len(r.h) + 1]
    [] v.k = "dep" -> [h |-> Append(h, [k |-> "dep", n |-> v.n, v |-> v.v, f |-> v.f, vl |-> v.vl, fl |-> v.fl, hd |-> 0]), i |-> Len(h) + 1]
    [] v.k = "meta" -> [h |-> Append(h, [k |-> "meta", eq |-> TRUE]), i |-> Len(h) + 1]
    [] OTHER -> [h |-> Append(h, v), i |-> Len(h) + 1]

Tx == [k |-> "text", s |-> <<97>>]
Dp == [k |-> "dep", n |-> <<100>>, v |-> <<49>>, f |-> <<>>, vl |-> <<49>>, fl |-> <<>>, hd |-> <<>>]
Tg(n, c) == [k |-> "tag", n |-> <<n>>, ws |-> TRUE, a |-> <<>>, c |-> c]
Starts == { Tg(100, <<>>), Tg(100, <<Tx, Dp>>), Tg(100, <<Tg(101, <<Tx>>), Tx>>),
            [k |-> "list", c |-> << Tg(100, <<Dp>>), [k |-> "meta", id |-> 0] >>],
            Tg(100, <<Tg(101, <<Tg(102, <<Dp>>)>>)>>) }

VARIABLES h, roots, hist
vars == <<h, roots, hist>>
Init == \E v \in Starts : LET r == Alloc(<<>>, v)
          IN /\ h = r.h /\ roots = <<r.i>> /\ hist = << [op |-> "new", v |-> v] >>

RECURSIVE Pre(_, _)
\* objects of a structure in document order
Pre(hh, i) == <<i>> \o LET o == hh[i] IN
  CASE o.k = "tag" -> FoldLeft(LAMBDA a, j : a \o Pre(hh, j), <<>>, hh[o.ch].c)
    [] o.k = "list" -> FoldLeft(LAMBDA a, j : a \o Pre(hh, j), <<>>, o.c)
    [] OTHER -> <<>>
Tags(i) == SelectSeq(Pre(h, i), LAMBDA j : h[j].k = "tag")
DepsOf(i) == SelectSeq(Pre(h, i), LAMBDA j : h[j].k = "dep")

Tagify(r) == LET x == Alloc(h, Value(h, roots[r]))
             IN /\ h' = x.h /\ roots' = Append(roots, x.i)
                /\ hist' = Append(hist, [op |-> "tagify", r |-> r])
Mut(r, m, k) ==
  LET t == Tags(roots[r])[k] IN
  /\ \/ /\ m = "name" /\ h[t].n # <<122>> /\ h' = [h EXCEPT ![t].n = <<122>>]
     \/ /\ m = "ws" /\ h' = [h EXCEPT ![t].ws = ~@]
     \/ /\ m = "attr" /\ h' = [h EXCEPT ![h[t].at].a = Append(@, [n |-> <<105>>, v |-> <<120>>, h |-> FALSE])]
     \/ /\ m = "append" /\ h' = Append([h EXCEPT ![h[t].ch].c = Append(@, Len(h) + 1)], Tx)
     \/ /\ m = "clear" /\ h[h[t].ch].c # <<>> /\ h' = [h EXCEPT ![h[t].ch].c = <<>>]
  /\ hist' = Append(hist, [op |-> "mut", r |-> r, m |-> m, k |-> k]) /\ UNCHANGED roots
MutDep(r, k) == LET d == DepsOf(roots[r])[k] IN
  /\ h' = [h EXCEPT ![d].f = Append(@, 33), ![d].fl = Append(@, 33)]
  /\ hist' = Append(hist, [op |-> "mut", r |-> r, m |-> "dep", k |-> k]) /\ UNCHANGED roots
Next == /\ Len(hist) <= MaxOps
        /\ \E r \in 1..Len(roots) :
             \/ Len(roots) < 3 /\ Tagify(r)
             \/ \E m \in {"name", "ws", "attr", "append", "clear"}, k \in 1..Len(Tags(roots[r])) : Mut(r, m, k)
             \/ \E k \in 1..Len(DepsOf(roots[r])) : MutDep(r, k)

Disjoint == \A i, j \in 1..Len(roots) : i # j => Own(h, roots[i]) \cap Own(h, roots[j]) = {}
\* a mutation through one root changes the value of no other root
Independent == [][LET e == hist'[Len(hist')]
   IN \A i \in 1..Len(roots) : (e.op = "tagify" \/ i # e.r) => Value(h', roots[i]) = Value(h, roots[i])]_vars
CopyEqual == [][LET e == hist'[Len(hist')]
   IN e.op = "tagify" => Value(h', roots'[Len(roots')]) = Value(h, roots[e.r])]_vars
\* == is total on what it must decide: never both demanded
Decided == \A i, j \in 1..Len(roots) : ~(MustEqual(h, roots[i], roots[j]) /\ MustDiffer(h, roots[i], roots[j]))
Emit == (EmitOn /\ Len(hist) = MaxOps + 1) => PrintT("VT-CASE " \o ToJson(hist))
=============================================================================
