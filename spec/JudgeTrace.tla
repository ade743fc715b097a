----------------------------- MODULE JudgeTrace ----------------------------
(* Trace specification for histories: every line of the log is one recorded *)
(* history [init |-> .., ev |-> <<event, ...>>].  The abstract state jst is  *)
(* the specification's state; each event is one transition: StepOf(jst, e)   *)
(* gives the set of failing clauses and the next state (resynchronised to   *)
(* the observed one after a failure, so the rest is still judged).          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS StartOf(_), StepOf(_, _)   \* line -> st ;  st, event -> [bad, st]

Log == ndJsonDeserialize(IOEnv.VT_LOG)
NChunk == 64

VARIABLES chunk, done, jpos, jst
jvars == <<chunk, done, jpos, jst>>

Line == Log[chunk + done * NChunk]
HasLine == chunk + done * NChunk <= Len(Log)

JInit == chunk \in 1..NChunk /\ done = 0 /\ jpos = 0 /\ jst = <<>>
Begin == /\ HasLine /\ jpos = 0
         /\ jst' = StartOf(Line) /\ jpos' = 1 /\ UNCHANGED <<chunk, done>>
Event == /\ HasLine /\ jpos > 0 /\ jpos <= Len(Line.ev)
         /\ LET r == StepOf(jst, Line.ev[jpos])
            IN /\ jst' = r.st
               /\ IF r.bad = {} THEN TRUE
                  ELSE PrintT(<<"VT-FAIL", chunk + done * NChunk, jpos, r.bad>>)
         /\ jpos' = jpos + 1 /\ UNCHANGED <<chunk, done>>
Finish == /\ HasLine /\ jpos > Len(Line.ev)
          /\ done' = done + 1 /\ jpos' = 0 /\ jst' = <<>> /\ UNCHANGED chunk
JNext == Begin \/ Event \/ Finish
=============================================================================
