------------------------------ MODULE ChildList ----------------------------
(* Child lists as a machine (C14).  The state h is a sequence of lists of   *)
(* stored nodes; every operation names its receiver r and its arguments.    *)
(* Stored nodes: [k |-> "text", s], [k |-> "html", s], [k |-> "obj", id].    *)
(* Arguments add: "num" s, "none", "list" c, "iter" c (a one-shot iterator), *)
(* "ref" i (the list h[i] itself) and "bad" (a value of unsupported type).   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Stored(n) == n.k \in {"text", "html", "obj"}

RECURSIVE HasBad(_)
HasBad(c) == \E i \in 1..Len(c) :
   c[i].k = "bad" \/ (c[i].k \in {"list", "iter"} /\ HasBad(c[i].c))

\* depth-first, left-to-right flattening
RECURSIVE Flatten(_, _)
Flatten(h, c) ==
  FoldLeft(LAMBDA a, n :
     CASE n.k = "none" -> a
       [] n.k = "num"  -> Append(a, [k |-> "text", s |-> n.s])
       [] n.k = "list" -> a \o Flatten(h, n.c)
       [] n.k = "ref"  -> a \o h[n.i]
       [] OTHER        -> Append(a, n), <<>>, c)

\* the items of an iterable argument; a string is one item
Items(h, x) == CASE x.k \in {"list", "iter"} -> x.c
                 [] x.k = "ref" -> h[x.i]
                 [] OTHER -> <<x>>

\* Python index arithmetic
Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
PyInsert(l, i, new) ==
  LET p == Clamp(IF i < 0 THEN i + Len(l) ELSE i, 0, Len(l))
  IN SubSeq(l, 1, p) \o new \o SubSeq(l, p + 1, Len(l))

\* l[a:b:s]; a and b are <<>> (omitted) or <<int>>
RECURSIVE SliceFrom(_, _, _, _)
SliceFrom(l, i, stop, s) ==
  IF (s > 0 /\ i >= stop) \/ (s < 0 /\ i <= stop) THEN <<>>
  ELSE <<l[i + 1]>> \o SliceFrom(l, i + s, stop, s)
Slice(l, a, b, s) ==
  LET n == Len(l)
      lo == IF s < 0 THEN -1 ELSE 0
      hi == IF s < 0 THEN n - 1 ELSE n
      fix(x) == Clamp(IF x < 0 THEN x + n ELSE x, lo, hi)
      start == IF a = <<>> THEN (IF s < 0 THEN hi ELSE lo) ELSE fix(a[1])
      stop == IF b = <<>> THEN (IF s < 0 THEN lo ELSE hi) ELSE fix(b[1])
  IN SliceFrom(l, start, stop, s)

Repeat(l, n) == FoldLeft(LAMBDA a, i : a \o l, <<>>, [i \in 1..(IF n < 0 THEN 0 ELSE n) |-> i])

\* ------------------------------------------------------------------ steps
\* the items an operation supplies
Supplied(h, o) ==
  IF o.op \in {"new", "append"} THEN o.a
  ELSE IF o.op = "insert" THEN <<o.a[1]>>
  ELSE IF o.op \in {"extend", "iadd", "add", "radd"} THEN Items(h, o.a[1])
  ELSE <<>>
MustRaise(h, o) == HasBad(Supplied(h, o))

\* the heap after the operation; results that are new lists are appended
ApplyChild(h, o) ==
  LET f == Flatten(h, Supplied(h, o))
      l == IF o.r = 0 THEN <<>> ELSE h[o.r]
  IN IF MustRaise(h, o) THEN h
     ELSE CASE o.op = "new" -> Append(h, f)
            [] o.op \in {"append", "extend", "iadd"} -> [h EXCEPT ![o.r] = l \o f]
            [] o.op = "insert" -> [h EXCEPT ![o.r] = PyInsert(l, o.i, f)]
            [] o.op = "add" -> Append(h, l \o f)
            [] o.op = "radd" -> Append(h, f \o l)
            [] o.op = "slice" -> Append(h, Slice(l, o.from, o.to, o.step))
            [] o.op \in {"mul", "rmul"} -> Append(h, Repeat(l, o.i))
            [] o.op = "imul" -> [h EXCEPT ![o.r] = Repeat(l, o.i)]
=============================================================================
