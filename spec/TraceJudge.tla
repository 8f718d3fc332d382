----------------------------- MODULE TraceJudge ------------------------------
(***************************************************************************)
(* Trace validation: the events recorded from the implementation (NDJSON,  *)
(* environment variable TRACE) are consumed one per step.  The events are  *)
(* dealt to Chunks independent sequences so that TLC's workers share them. *)
(* Verdict(e) is "ok" when the specification allows event e, "known" when  *)
(* only a recorded finding explains it, and anything else when it is       *)
(* rejected.  A rejected event is reported and the rest is still checked.  *)
(* Validation is complete when TLC has found Len(Trace) + Chunks states.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Verdict(_), Chunks

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES chunk, l
vars == <<chunk, l>>

Init == chunk \in 1..Chunks /\ l = chunk
Next == /\ l <= Len(Trace)
        /\ l' = l + Chunks /\ chunk' = chunk
        /\ LET v == Verdict(Trace[l]) IN
           \/ v = "ok"
           \/ v = "known" /\ PrintT(<<"KNOWN", l>>)
           \/ v \notin {"ok", "known"} /\ PrintT(<<"BAD", l, v>>)
Spec == Init /\ [][Next]_vars
=============================================================================
