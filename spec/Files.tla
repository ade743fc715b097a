------------------------------- MODULE Files -------------------------------
(* Dependency URLs and the files behind them (C12).  A file system is a set *)
(* of entries [p |-> <<segments>>, d |-> directory?, c |-> <<bytes>>];      *)
(* segments are byte sequences.  A dependency additionally has               *)
(*  all (all_files) and dir (its source directory, <<segments>>).            *)
EXTENDS Doc

---------------------------------------------------------------------------
\* UTF-8
Utf8C(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s
           ELSE FoldLeft(LAMBDA a, c : a \o Utf8C(c), <<>>, s)

\* percent-decoding of a URL to bytes: [ok, b]
PctAt(u, i) == IF i + 2 <= Len(u) /\ HexVal(u[i + 1]) >= 0 /\ HexVal(u[i + 2]) >= 0
               THEN HexVal(u[i + 1]) * 16 + HexVal(u[i + 2]) ELSE -1
PERCENT == 37
PctDecode(u) ==
  FoldLeft(LAMBDA a, i :
     IF i < a.next THEN a
     ELSE IF u[i] = PERCENT
          THEN LET v == PctAt(u, i)
               IN [ok |-> a.ok /\ v >= 0, b |-> Append(a.b, v), next |-> i + 3]
          ELSE [a EXCEPT !.b = @ \o Utf8C(u[i])],
     [ok |-> TRUE, b |-> <<>>, next |-> 1], [i \in 1..Len(u) |-> i])
\* characters of an encoded path (RFC 3986 pchar and "/")
PathChar(c) == \/ IsDigit(c) \/ IsLow(c) \/ (c >= 65 /\ c <= 90)
               \/ c \in {45, 46, 95, 126, 33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61, 58, 64, 47, PERCENT}
\* e is a percent-encoding of the relative path p
Encodes(e, p) == /\ \A i \in 1..Len(e) : PathChar(e[i])
                 /\ LET d == PctDecode(e) IN d.ok /\ d.b = Utf8(p)
\* the canonical encoding (operational)
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Quoted(p) == FoldLeft(LAMBDA a, b :
   a \o (IF IsDigit(b) \/ IsLow(b) \/ (b >= 65 /\ b <= 90) \/ b \in {45, 46, 95, 126, 47} THEN <<b>>
         ELSE <<PERCENT, HexDigit(b \div 16), HexDigit(b % 16)>>), <<>>, Utf8(p))

---------------------------------------------------------------------------
(* The URL of an item with path p.  prefix = <<>>: none.                    *)
LocalUrl(d, prefix, iv, p, u) ==
  LET b == BaseUrl(d, prefix, iv) \o <<SLASH>>
  IN Len(u) > Len(b) /\ SubSeq(u, 1, Len(b)) = b /\ Encodes(SubSeq(u, Len(b) + 1, Len(u)), p)
\* href/path; whether a path below a URL is quoted is left open
HrefUrl(d, p, u) ==
  LET b == UrlJoin(d.src.s, <<>>)
      t == SubSeq(u, Len(b) + 1, Len(u))
  IN Len(u) > Len(b) /\ SubSeq(u, 1, Len(b)) = b
     /\ (t = p \/ LET x == PctDecode(t) IN x.ok /\ x.b = Utf8(p))
UrlOK(d, prefix, iv, p, u) ==
  CASE d.src.t = "none" -> LET x == PctDecode(u) IN u = p \/ (x.ok /\ x.b = Utf8(p))
    [] d.src.t = "href" -> HrefUrl(d, p, u)
    [] OTHER -> LocalUrl(d, prefix, iv, p, u)

ItemPath(item, key) == LET i == SelectInSeq(item, LAMBDA a : a.n = key) IN item[i].v.s
ScriptPaths(d) == [i \in 1..Len(d.script) |-> ItemPath(d.script[i], S("src"))]
SheetPaths(d) == [i \in 1..Len(d.stylesheet) |-> ItemPath(d.stylesheet[i], S("href"))]
Paths(d) == ScriptPaths(d) \o SheetPaths(d)

---------------------------------------------------------------------------
\* segments of a byte path, folded: "." and empty segments vanish, ".." pops
Fold(segs, rel) ==
  FoldLeft(LAMBDA a, s : IF s = <<>> \/ s = <<46>> THEN a
                         ELSE IF s = <<46, 46>> THEN (IF a = <<>> THEN a ELSE SubSeq(a, 1, Len(a) - 1))
                         ELSE Append(a, s), segs, rel)
SegsOf(b) == SplitOn(b, SLASH)
Resolved(dir, b) == Fold(IF b # <<>> /\ b[1] = SLASH THEN <<>> ELSE dir, SegsOf(b))
\* what a URL in a file of directory dir names; absolute paths are below root
UrlPath(root, dir, u) ==
  LET x == PctDecode(u)
      p == Resolved(root \o dir, x.b)
      n == Len(root)
  IN IF x.ok /\ Len(p) > n /\ SubSeq(p, 1, n) = root THEN SubSeq(p, n + 1, Len(p)) ELSE <<>>

Under(t, p) == Len(p) >= Len(t) /\ SubSeq(p, 1, Len(t)) = t
Below(fs, t) == {[e EXCEPT !.p = SubSeq(e.p, Len(t) + 1, Len(e.p))] :
                   e \in {x \in fs : Under(t, x.p) /\ Len(x.p) > Len(t)}}
Has(fs, p) == \E e \in fs : e.p = p
At(fs, p) == CHOOSE e \in fs : e.p = p
Ancestors(p) == {SubSeq(p, 1, k) : k \in 1..(Len(p) - 1)}
DirEntry(p) == [p |-> p, d |-> TRUE, c |-> <<>>]

Local(d) == d.src.t = "sub"
Listed(d) == {Fold(<<>>, SegsOf(Utf8(p))) : p \in ToSet(Paths(d))}
\* copied entries, relative to the target directory
Copied(fs, d) ==
  LET s == Below(fs, d.dir)
  IN IF d.all THEN s
     ELSE {e \in s : ~e.d /\ e.p \in Listed(d)} \cup {DirEntry(p) : p \in UNION {Ancestors(x) : x \in Listed(d)}}
Missing(fs, d) == Local(d) /\ ~d.all /\ \E p \in Listed(d) : ~Has(fs, d.dir \o p)
Target(dest, d, iv) == Fold(dest, SegsOf(Utf8(DirName(d, iv))))

\* operational: the file system after copying d below dest
CopyTo(fs, d, dest, iv) ==
  IF ~Local(d) \/ Missing(fs, d) THEN fs
  ELSE LET t == Target(dest, d, iv)
       IN {e \in fs : ~Under(t, e.p)} \cup {[e EXCEPT !.p = t \o @] : e \in Copied(fs, d)}
          \cup {DirEntry(p) : p \in Ancestors(t) \cup {t}}

\* declarative: does `after` show every d of ds copied below dest
OutsideV(before, after, ts, dest, except) ==
  LET out(fs) == {e \in fs : e.p # except /\ \A t \in ts : ~Under(t, e.p)}
      new == out(after) \ out(before)
  IN (IF out(before) \subseteq out(after) THEN {} ELSE {"changed-something-else"})
     \cup (IF \A e \in new : e.d /\ (\E t \in ts : e.p \in Ancestors(t) \/ e.p \in Ancestors(dest) \cup {dest})
           THEN {} ELSE {"wrote-outside-the-target"})
CopyV(before, after, d, dest, iv) ==
  LET t == Target(dest, d, iv)
      want == Copied(before, d)
      got == Below(after, t)
  IN (IF {e \in want : ~e.d} \subseteq got THEN {} ELSE {"copied-file-missing-or-different"})
     \cup (IF got \subseteq want THEN {} ELSE {"target-has-other-contents"})
     \cup (IF want \subseteq got THEN {} ELSE {"target-incomplete"})
     \cup (IF want # {} /\ ~(Has(after, t) /\ At(after, t).d) THEN {"no-target-directory"} ELSE {})
UntouchedV(before, after, d, dest, iv) ==
  LET t == Target(dest, d, iv)
      sub(fs) == {e \in fs : Under(t, e.p)}
  IN IF sub(before) = sub(after) THEN {} ELSE {"touched-target-of-missing-file"}
=============================================================================
