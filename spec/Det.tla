-------------------------------- MODULE Det --------------------------------
(* Determinism (C18): what may be observed of constructions and names.      *)
(* memo   sequence of [m |-> what was asked, o |-> what came out]            *)
(* names  set of <<rendered content, name>>                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

\* an observation of a construction agrees with everything seen before
Known(memo, m) == SelectInSeq(memo, LAMBDA x : x.m = m)
Agrees(memo, m, o) == Known(memo, m) = 0 \/ memo[Known(memo, m)].o = o
Learn(memo, m, o) == IF Known(memo, m) = 0 THEN Append(memo, [m |-> m, o |-> o]) ELSE memo

\* names are a function of the content ... and different contents differ
Functional(names) == Cardinality({p[1] : p \in names}) = Cardinality(names)
Injective(names) == Cardinality({p[2] : p \in names}) = Cardinality(names)

\* first appearances
Firsts(s) == FoldLeft(LAMBDA a, x : IF Contains(a, x) THEN a ELSE Append(a, x), <<>>, s)
=============================================================================
