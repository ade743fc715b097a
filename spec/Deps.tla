-------------------------------- MODULE Deps -------------------------------
(* Version numbers and dependency resolution (C10).                         *)
(* Version: code points of a canonical-ish PEP 440 version                   *)
(*   [N!]N(.N)*[(a|b|rc)N][.postN][.devN][+local]                            *)
EXTENDS Tree

DOT == 46
PLUS == 43

\* numbers are digit strings (no size limit)
StripZ(d) == LET i == SelectInSeq(d, LAMBDA c : c # 48) IN IF i = 0 THEN <<>> ELSE SubSeq(d, i, Len(d))
\* -1 / 0 / 1
Sign(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
RECURSIVE CmpLex(_, _)
CmpLex(a, b) ==
  IF a = <<>> \/ b = <<>> THEN Sign(Len(a), Len(b))
  ELSE IF a[1] # b[1] THEN Sign(a[1], b[1]) ELSE CmpLex(Tail(a), Tail(b))
CmpNum(a, b) ==
  LET x == StripZ(a)
      y == StripZ(b)
  IN IF Len(x) # Len(y) THEN Sign(Len(x), Len(y)) ELSE CmpLex(x, y)

SplitOn(s, sep) ==
  LET f == FoldLeft(LAMBDA a, c : IF c = sep THEN [ts |-> Append(a.ts, a.cur), cur |-> <<>>]
                                  ELSE [ts |-> a.ts, cur |-> Append(a.cur, c)],
                    [ts |-> <<>>, cur |-> <<>>], s)
  IN Append(f.ts, f.cur)

IsLow(c) == c >= 97 /\ c <= 122
AllDigits(s) == s # <<>> /\ \A i \in 1..Len(s) : IsDigit(s[i])
\* runs of digits / letters, separators dropped: "1.2rc3.post4" -> 1 2 rc 3 post 4
Runs(s) ==
  LET cls(c) == IF IsDigit(c) THEN 1 ELSE IF IsLow(c) THEN 2 ELSE 0
      f == FoldLeft(LAMBDA a, c :
             IF cls(c) = 0 THEN [ts |-> IF a.cur = <<>> THEN a.ts ELSE Append(a.ts, a.cur), cur |-> <<>>, k |-> 0]
             ELSE IF cls(c) = a.k THEN [a EXCEPT !.cur = Append(@, c)]
             ELSE [ts |-> IF a.cur = <<>> THEN a.ts ELSE Append(a.ts, a.cur), cur |-> <<c>>, k |-> cls(c)],
             [ts |-> <<>>, cur |-> <<>>, k |-> 0], s)
  IN IF f.cur = <<>> THEN f.ts ELSE Append(f.ts, f.cur)

VerParse(v0) ==
  LET v == Lower(v0)
      pl == SelectInSeq(v, LAMBDA c : c = PLUS)
      pub == IF pl = 0 THEN v ELSE SubSeq(v, 1, pl - 1)
      loc == IF pl = 0 THEN <<>> ELSE SplitOn(SubSeq(v, pl + 1, Len(v)), DOT)
      bang == SelectInSeq(pub, LAMBDA c : c = BANG)
      ep == IF bang = 0 THEN <<48>> ELSE SubSeq(pub, 1, bang - 1)
      body == IF bang = 0 THEN pub ELSE SubSeq(pub, bang + 1, Len(pub))
      rs == Runs(body)
      w == SelectInSeq(rs, LAMBDA t : IsLow(t[1]))
      rel == IF w = 0 THEN rs ELSE SubSeq(rs, 1, w - 1)
      tailr == IF w = 0 THEN <<>> ELSE SubSeq(rs, w, Len(rs))
      at(words) == SelectInSeq(tailr, LAMBDA t : t \in words)
      numAfter(i) == IF i < Len(tailr) /\ IsDigit(tailr[i + 1][1]) THEN tailr[i + 1] ELSE <<48>>
      get(words) == LET i == at(words) IN IF i = 0 THEN <<>> ELSE numAfter(i)
      pa == get({S("a"), S("alpha")})
      pb == get({S("b"), S("beta")})
      pr == get({S("rc"), S("c")})
  IN [ep |-> ep, rel |-> rel, loc |-> loc, hasLoc |-> pl # 0,
      pre |-> IF pa # <<>> THEN <<1, pa>> ELSE IF pb # <<>> THEN <<2, pb>>
              ELSE IF pr # <<>> THEN <<3, pr>> ELSE <<>>,
      post |-> get({S("post")}), dev |-> get({S("dev")})]

\* release segments compare padded with zeros
RECURSIVE CmpRel(_, _)
CmpRel(a, b) ==
  IF a = <<>> /\ b = <<>> THEN 0
  ELSE LET x == IF a = <<>> THEN <<48>> ELSE a[1]
           y == IF b = <<>> THEN <<48>> ELSE b[1]
           c == CmpNum(x, y)
       IN IF c # 0 THEN c
          ELSE CmpRel(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b))

\* rank of the pre-release part: dev-only < a < b < rc < none
PreRank(v) == IF v.pre # <<>> THEN v.pre[1]
              ELSE IF v.post = <<>> /\ v.dev # <<>> THEN 0 ELSE 4
RECURSIVE CmpLoc(_, _)
CmpLoc(a, b) ==
  IF a = <<>> \/ b = <<>> THEN Sign(Len(a), Len(b))
  ELSE LET da == AllDigits(a[1])
           db == AllDigits(b[1])
           c == IF da # db THEN (IF da THEN 1 ELSE -1)
                ELSE IF da THEN CmpNum(a[1], b[1]) ELSE CmpLex(a[1], b[1])
       IN IF c # 0 THEN c ELSE CmpLoc(Tail(a), Tail(b))
First0(cs) == LET i == SelectInSeq(cs, LAMBDA c : c # 0) IN IF i = 0 THEN 0 ELSE cs[i]
CmpOpt(a, b, absent) ==  \* absent: sign of "absent vs present"
  IF a = <<>> /\ b = <<>> THEN 0
  ELSE IF a = <<>> THEN absent ELSE IF b = <<>> THEN -absent ELSE CmpNum(a, b)
VerCmp(s, t) ==
  IF s = t THEN 0
  ELSE LET a == VerParse(s)
           b == VerParse(t)
           pr == Sign(PreRank(a), PreRank(b))
       IN First0(<< CmpNum(a.ep, b.ep), CmpRel(a.rel, b.rel), pr,
                    IF pr = 0 /\ a.pre # <<>> THEN CmpNum(a.pre[2], b.pre[2]) ELSE 0,
                    CmpOpt(a.post, b.post, -1), CmpOpt(a.dev, b.dev, 1),
                    IF a.hasLoc # b.hasLoc THEN (IF a.hasLoc THEN 1 ELSE -1) ELSE CmpLoc(a.loc, b.loc) >>)

---------------------------------------------------------------------------
(* A dependency is [name, v (version code points), m (identity)].           *)
\* all dependencies of an expanded sibling list, in document order
\* a dependency comes before the ones in its head
RECURSIVE CollectDeps(_)
CollectDeps(c) ==
  FoldLeft(LAMBDA a, n : IF n.k = "dep"
                         THEN Append(a, n.d) \o (IF "head" \in DOMAIN n.d THEN CollectDeps(n.d.head) ELSE <<>>)
                         ELSE IF n.k = "tag" THEN a \o CollectDeps(n.c) ELSE a, <<>>, c)

\* operational: fold with replacement in place (the library's algorithm)
ResolveOp(ds) ==
  FoldLeft(LAMBDA a, d :
     LET i == SelectInSeq(a, LAMBDA x : x.name = d.name)
     IN IF i = 0 THEN Append(a, d)
        ELSE IF VerCmp(d.v, a[i].v) > 0 THEN [a EXCEPT ![i] = d] ELSE a, <<>>, ds)

\* declarative: per name (ordered by first occurrence) the earliest maximum
NamesOf(ds) == FoldLeft(LAMBDA a, d : IF \E i \in 1..Len(a) : a[i] = d.name THEN a ELSE Append(a, d.name), <<>>, ds)
BestOf(ds, nm) ==
  LET c == SelectSeq(ds, LAMBDA d : d.name = nm)
      i == CHOOSE i \in 1..Len(c) :
             /\ \A j \in 1..Len(c) : VerCmp(c[j].v, c[i].v) <= 0
             /\ \A j \in 1..(i - 1) : VerCmp(c[j].v, c[i].v) < 0
  IN c[i]
Resolve(ds) == LET ns == NamesOf(ds) IN [i \in 1..Len(ns) |-> BestOf(ds, ns[i])]
Ids(ds) == [i \in 1..Len(ds) |-> ds[i].m]

---------------------------------------------------------------------------
(* Definitions.  src: "none" | "dict" with keys | "other"; items: "none" |  *)
(* "dict" keys | "list" of items | "other".                                 *)
SrcOK(s) == s.t = "none" \/ (s.t = "dict" /\ ("href" \in ToSet(s.keys) \/ "subdir" \in ToSet(s.keys)))
ItemOK(x, req) == x.t = "dict" /\ req \subseteq ToSet(x.keys)
ItemsOK(x, req) == CASE x.t = "none" -> TRUE
                     [] x.t = "list" -> \A i \in 1..Len(x.items) : ItemOK(x.items[i], req)
                     [] OTHER -> ItemOK(x, req)
DefOK(d) == SrcOK(d.source) /\ ItemsOK(d.script, {"src"}) /\ ItemsOK(d.stylesheet, {"href"})
            /\ ItemsOK(d.meta, {"name", "content"})
=============================================================================
