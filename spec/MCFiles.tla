------------------------------ MODULE MCFiles ------------------------------
(* Histories of source edits, stale target contents and copies (C12).       *)
(* Symbolic names; the driver replays the histories with real directories   *)
(* and hostile names for the segments 1..4.                                 *)
EXTENDS Files, Json
CONSTANTS MaxOps, EmitOn

\* segments: 1 = "a", 2 = "d", 3 = "b", 4 = "z" (as one-byte names)
N(i) == <<96 + i>>
FA == <<N(1)>>              \* a
FB == <<N(2), N(3)>>        \* d/b
FH == <<N(4)>>              \* not listed
SrcDir == <<S("src")>>
DestDir == <<S("out"), S("lib")>>
It(key, p) == << [n |-> S(key), v |-> [t |-> "str", s |-> p]] >>
D(script, sheet, allf) ==
  [name |-> S("nm"), v |-> S("1.0"), m |-> 1, src |-> [t |-> "sub", s |-> <<>>], dir |-> SrcDir, all |-> allf,
   script |-> [i \in 1..Len(script) |-> It("src", script[i])],
   stylesheet |-> [i \in 1..Len(sheet) |-> It("href", sheet[i])], meta |-> <<>>]
P(f) == Join(f, <<SLASH>>)
Deps4 == << D(<<P(FA)>>, <<>>, FALSE), D(<<P(FA)>>, <<P(FB)>>, FALSE), D(<<>>, <<>>, TRUE), D(<<P(FB), P(FA)>>, <<>>, TRUE) >>
File(p, v) == [p |-> p, d |-> FALSE, c |-> <<v>>]
Parents(p) == {DirEntry(q) : q \in Ancestors(p)}

VARIABLES fs, hist, failed
vars == <<fs, hist, failed>>
Init == /\ fs = Parents(SrcDir \o FB) \cup {File(SrcDir \o FA, 1), File(SrcDir \o FB, 2), DirEntry(<<S("out")>>)}
        /\ hist = <<>> /\ failed = FALSE

PutFile(p, v) == fs' = {e \in fs : ~Under(p, e.p)} \cup {File(p, v)} \cup Parents(p)
Log(e) == hist' = Append(hist, e)
Edit(f, v) == /\ \A q \in Ancestors(SrcDir \o f) : Has(fs, q) => At(fs, q).d
              /\ PutFile(SrcDir \o f, v) /\ Log([op |-> "edit", f |-> f, v |-> v]) /\ failed' = FALSE
DelFile(f) == Has(fs, SrcDir \o f) /\ fs' = {e \in fs : e.p # SrcDir \o f}
          /\ Log([op |-> "del", f |-> f, v |-> 0]) /\ failed' = FALSE
Stale(iv, f, v) == LET t == Target(DestDir, Deps4[1], iv) IN
  /\ \A q \in Ancestors(t \o f) : Has(fs, q) => At(fs, q).d
  /\ PutFile(t \o f, v) /\ Log([op |-> "stale", f |-> f, v |-> v, iv |-> iv]) /\ failed' = FALSE
Copy(k, iv) ==
  /\ fs' = CopyTo(fs, Deps4[k], DestDir, iv) /\ failed' = Missing(fs, Deps4[k])
  /\ Log([op |-> "copy", k |-> k, iv |-> iv])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E f \in {FA, FB, FH} : Edit(f, 3)
           \/ \E f \in {FA, FB} : DelFile(f)
           \/ \E iv \in BOOLEAN, f \in {FA, FB, FH, <<N(2)>>, FA \o FA} : Stale(iv, f, 9)
           \/ \E k \in 1..4, iv \in BOOLEAN : Copy(k, iv)

Last1 == hist[Len(hist)]
\* the operational copy satisfies the declarative verdict
CopyIsRight == [][LET e == Last1' IN e.op = "copy" =>
   LET d == Deps4[e.k]
       t == Target(DestDir, d, e.iv)
   IN /\ OutsideV(fs, fs', {t}, DestDir, <<>>) = {}
      /\ (failed' => UntouchedV(fs, fs', d, DestDir, e.iv) = {})
      /\ (~failed' => CopyV(fs, fs', d, DestDir, e.iv) = {})]_vars
\* every URL of a copied dependency names a copied file, whatever the prefix
UrlsAgree == [][LET e == Last1' IN (e.op = "copy" /\ ~failed') =>
   LET d == Deps4[e.k] IN
   \A p \in ToSet(Paths(d)) :
      LET f == UrlPath(<<S("root")>>, <<S("out")>>, BaseUrl(d, S("lib"), e.iv) \o <<SLASH>> \o Quoted(p))
          s == SrcDir \o Fold(<<>>, SegsOf(Utf8(p)))
      IN Has(fs, s) => Has(fs', f) /\ At(fs', f).c = At(fs, s).c]_vars
\* sources are never written by a copy; entries have directories above them
WellFormed == /\ \A e \in fs : \A q \in Ancestors(e.p) : Has(fs, q) /\ At(fs, q).d
              /\ \A e1, e2 \in fs : e1.p = e2.p => e1 = e2
Emit == (EmitOn /\ Len(hist) = MaxOps /\ Last1.op = "copy") => PrintT("VT-CASE " \o ToJson(hist))

=============================================================================
