----------------------------- MODULE JudgeFiles ----------------------------
(* Judges recorded URLs, copies and saved documents (C12).                  *)
EXTENDS Files, JudgeCore

\* q = "dict": URLs of as_dict() / as_html_tags() / rendered markup
UrlsV(d, prefix, iv, o, label) ==
  IF ~o.ok THEN {label \o "-raised-" \o o.e}
  ELSE LET one(ps, us, what) ==
         IF Len(us) # Len(ps) THEN {label \o "-number-of-" \o what}
         ELSE IF \A i \in 1..Len(ps) : UrlOK(d, prefix, iv, ps[i], us[i]) THEN {} ELSE {label \o "-" \o what \o "-url"}
       IN one(ScriptPaths(d), o.script, "script") \cup one(SheetPaths(d), o.sheet, "stylesheet")
DictV(x) == UrlsV(x.d, x.prefix, x.iv, x.dict, "as_dict") \cup UrlsV(x.d, x.prefix, x.iv, x.tags, "as_html_tags")
            \cup UrlsV(x.d, x.prefix, x.iv, x.text, "markup")

\* q = "copy": one copy_to()
CpV(x) ==
  LET b == ToSet(x.before)
      a == ToSet(x.after)
      t == Target(x.dest, x.d, x.iv)
  IN IF ~Local(x.d)
     THEN (IF x.out.ok THEN {} ELSE {"raised-" \o x.out.e}) \cup (IF a = b THEN {} ELSE {"copied-without-local-source"})
     ELSE IF Missing(b, x.d)
     THEN (IF x.out.ok THEN {"missing-file-not-reported"} ELSE {})
          \cup UntouchedV(b, a, x.d, x.dest, x.iv) \cup OutsideV(b, a, {t}, x.dest, <<>>)
     ELSE (IF x.out.ok THEN CopyV(b, a, x.d, x.dest, x.iv) ELSE {"raised-" \o x.out.e})
          \cup OutsideV(b, a, {t}, x.dest, <<>>)

\* q = "save": one save_html()
Dest(x) == LET l == Utf8(x.libdir)
               p == Resolved(x.root \o SubSeq(x.file, 1, Len(x.file) - 1), l)
           IN SubSeq(p, Len(x.root) + 1, Len(p))
SaveV(x) ==
  LET b == ToSet(x.before)
      a == ToSet(x.after)
      ds == Resolve(AllDeps(ExpandSeq(NormSeq(x.c))))
      loc == SelectSeq(ds, LAMBDA d : Local(d))
      L == ToSet(loc)
      dest == Dest(x)
      dir == SubSeq(x.file, 1, Len(x.file) - 1)
      ts == {Target(dest, d, x.iv) : d \in L}
      bad == {d \in L : Missing(b, d)}
      names(u) == UrlPath(x.root, dir, u)
      \* the URL names a copied file of d, byte-identical to its source
      hit(u, d) == LET p == names(u)
                       t == Target(dest, d, x.iv)
                   IN /\ Under(t, p) /\ Len(p) > Len(t) /\ Has(a, p) /\ ~At(a, p).d
                      /\ LET q == d.dir \o SubSeq(p, Len(t) + 1, Len(p))
                         IN SubSeq(q, Len(d.dir) + 1, Len(q)) \in Listed(d) /\ Has(b, q) /\ At(b, q).c = At(a, p).c
      remote(u) == \E d \in ToSet(ds) : ~Local(d) /\ \E p \in ToSet(Paths(d)) : UrlOK(d, <<>>, x.iv, p, u)
      us == ToSet(x.urls)
  IN IF bad # {}
     THEN (IF x.ret.ok THEN {"missing-file-not-reported"} ELSE {})
          \cup UNION {UntouchedV(b, a, d, dest, x.iv) : d \in bad}
          \cup OutsideV(b, a, ts, dest, x.file)
     ELSE IF ~x.ret.ok THEN {"raised-" \o x.ret.e}
     ELSE (IF x.ret.p = x.file /\ Has(a, x.file) THEN {} ELSE {"did-not-return-the-written-file"})
          \cup UNION {CopyV(b, a, d, dest, x.iv) : d \in L}
          \cup OutsideV(b, a, ts, dest, x.file)
          \cup (IF \A u \in us : remote(u) \/ \E d \in L : hit(u, d) THEN {} ELSE {"url-names-no-copied-file"})
          \cup (IF \A d \in L : \A p \in ToSet(Paths(d)) : \E u \in us :
                     hit(u, d) /\ names(u) = Target(dest, d, x.iv) \o Fold(<<>>, SegsOf(Utf8(p)))
                THEN {} ELSE {"no-url-for-a-listed-file"})
          \cup (IF \A d \in ToSet(ds) : \A p \in ToSet(Paths(d)) : \E u \in us : UrlOK(d, x.libdir, x.iv, p, u)
                THEN {} ELSE {"url-is-not-prefix-name-path"})

FilesVerdict(x) == CASE x.q = "dict" -> DictV(x) [] x.q = "copy" -> CpV(x) [] x.q = "save" -> SaveV(x)
=============================================================================
