------------------------------ MODULE JudgeJsx -----------------------------
(* Judges recorded histories of JSX components: conversions, changes in     *)
(* between, and constructions with an allow-list (C20).                     *)
EXTENDS Jsx, JudgeTrace

XStart(line) == line.root

Ids(X) == {x.m : x \in X}
ConvBad(n, e) ==
  LET want == Metas(n)
      all == {x \in want : x.dep}
      \* versions follow m, so they differ under one name
      deps == IF e.dedup THEN {x \in all : ~\E y \in all : y.nm = x.nm /\ y.m > x.m} ELSE all
  IN IF ~e.ok THEN {"conversion-raised-" \o e.e}
     ELSE (IF e.script THEN {} ELSE {"not-one-script-element"})
       \cup (IF ~e.read THEN {"expression-unreadable"}
             ELSE IF IsNode(n, e.ast) THEN {}
             ELSE IF e.ast.t # "el" \/ e.ast.n # n.n THEN {"expression-element"}
             ELSE IF ~Entries(n.p, e.ast.p, IsProp, IsVal) THEN {"expression-props"}
             ELSE {"expression-children"})
       \cup (IF ~e.meta THEN {}
             ELSE (IF Ids(want) \subseteq ToSet(e.metas) THEN {} ELSE {"metadata-lost"})
                  \cup (IF ToSet(e.metas) \subseteq Ids(want) THEN {} ELSE {"metadata-from-nowhere"}))
       \cup (IF ~e.hasdeps THEN {}
             ELSE (IF ToSet(e.deps) = Ids(deps) THEN {} ELSE {"dependencies-lost"})
                  \cup (IF e.react THEN {} ELSE {"no-react-dependency"})
                  \cup (IF e.files THEN {} ELSE {"react-script-missing"}))

XStep(n, e) ==
  LET pure == IF e.changed = <<>> THEN {} ELSE {"conversion-changed-the-component"} IN
  CASE e.op = "convert" -> [st |-> n, bad |-> ConvBad(n, e) \cup pure]
    [] e.op = "prop" -> [st |-> SetProp(n, e.n, e.v), bad |-> {}]
    [] e.op = "kids" -> [st |-> AddKids(n, e.c), bad |-> {}]
    [] e.op = "allow" ->
         [st |-> n, bad |-> IF Rejected(e.allowed, e.names)
                            THEN (IF e.ok THEN {"undeclared-prop-accepted"} ELSE {})
                            ELSE (IF e.ok THEN {} ELSE {"declared-prop-rejected"})]
=============================================================================
