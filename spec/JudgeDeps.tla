------------------------------ MODULE JudgeDeps ----------------------------
(* Judges recorded dependency lists and definitions (C10).                  *)
EXTENDS Deps, JudgeCore

Same(o, want, label) == IF ~o.ok THEN {label \o "-raised-" \o o.e}
                        ELSE IF o.ids = want THEN {} ELSE {label}
ResV(x) ==
  LET full == CollectDeps(NormSeq(x.c))                  \* un-expanded tree
      exp == CollectDeps(ExpandSeq(NormSeq(x.c)))        \* after tagify
      want == Ids(Resolve(full))
      kept == Resolve(full)
      \* what is resolved stays resolved (but a head's dependencies are found again, behind it)
      again == Ids(Resolve(CollectDeps([i \in 1..Len(kept) |-> [k |-> "dep", d |-> kept[i]]])))
      wexp == Ids(Resolve(exp))
  IN Same(x.full, Ids(full), "without-dedup") \cup Same(x.ded, want, "resolved")
     \cup Same(x.again, again, "not-idempotent")
     \cup Same(x.rend, wexp, "render-dependencies") \cup Same(x.doc, wexp, "document-dependencies")
     \cup Same(x.exp, Ids(exp), "without-dedup-after-tagify")

VerV(x) == IF ~x.ok THEN {"raised"}
           ELSE IF x.got = (IF VerCmp(x.v2, x.v1) > 0 THEN 2 ELSE 1) THEN {} ELSE {"version-order"}

DefV(x) ==
  IF DefOK(x.d) THEN (IF x.res.ok THEN {} ELSE {"valid-definition-rejected-" \o x.res.e})
                     \cup (IF x.res.ok /\ ~x.same THEN {"single-item-differs-from-list"} ELSE {})
  ELSE IF x.res.ok THEN {"invalid-definition-accepted"} ELSE {}

DepsVerdict(x) == CASE x.q = "res" -> ResV(x) [] x.q = "ver" -> VerV(x) [] x.q = "def" -> DefV(x)
=============================================================================
