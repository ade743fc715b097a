------------------------------- MODULE MCDeps ------------------------------
(* All short dependency sequences over tricky versions: resolution algebra. *)
EXTENDS Deps, Json
CONSTANTS MaxDeps, Rich, EmitOn
Vers == {S("1.9"), S("1.10"), S("1.9.0"), S("2")} \cup
        (IF Rich THEN {S("1.10rc1"), S("1.10.post1"), S("1.10.dev3"), S("1.9+local"), S("1!0")} ELSE {})
Names == {"a", "b"}
VARIABLE ds
Init == ds = <<>>
Next == Len(ds) < MaxDeps /\ \E nm \in Names, v \in Vers :
          ds' = Append(ds, [name |-> nm, v |-> v, m |-> Len(ds) + 1])
OpIsDecl == ResolveOp(ds) = Resolve(ds)
Idempotent == Resolve(Resolve(ds)) = Resolve(ds)
OncePerName == LET r == Resolve(ds) IN \A i, j \in 1..Len(r) : r[i].name = r[j].name => i = j
\* resolving a part first changes nothing: independent of tree position
Assoc == \A k \in 0..Len(ds) :
   LET p == SubSeq(ds, 1, k)
       q == SubSeq(ds, k + 1, Len(ds))
   IN Resolve(Resolve(p) \o Resolve(q)) = Resolve(ds)
\* the version order is a total preorder
Order == \A u, v, w \in Vers :
   /\ VerCmp(u, v) = -VerCmp(v, u)
   /\ (VerCmp(u, v) <= 0 /\ VerCmp(v, w) <= 0 => VerCmp(u, w) <= 0)
Numeric == VerCmp(S("1.9"), S("1.10")) < 0 /\ VerCmp(S("1.9"), S("1.9.0")) = 0
Emit == (EmitOn /\ ds # <<>>) => PrintT("VT-CASE " \o ToJson(ds))
=============================================================================
