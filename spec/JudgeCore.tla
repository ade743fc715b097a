------------------------------ MODULE JudgeCore ----------------------------
(* Trace specification for independent observations: every line of the log  *)
(* is one recorded execution; Verdict(line) is the set of names of the      *)
(* clauses it breaks.  Lines are dealt to NChunk chunks so TLC's workers    *)
(* judge in parallel; every line is consumed exactly once (the driver       *)
(* checks  distinct states = lines + chunks).                               *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Verdict(_)

Log == ndJsonDeserialize(IOEnv.VT_LOG)
NChunk == 64

VARIABLES chunk, done
jvars == <<chunk, done>>

JInit == chunk \in 1..NChunk /\ done = 0
JNext ==
  LET i == chunk + done * NChunk
  IN /\ i <= Len(Log)
     /\ done' = done + 1
     /\ UNCHANGED chunk
     /\ LET v == Verdict(Log[i])
        IN IF v = {} THEN TRUE ELSE PrintT(<<"VT-FAIL", i, 0, v>>)
=============================================================================
