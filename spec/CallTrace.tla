------------------------------ MODULE CallTrace ------------------------------
(***************************************************************************)
(* C21: recorded histories of calls of the parser, the operand conversions *)
(* and the generator.  TABLE: what each call returned as the first of a    *)
(* fresh process.  An event is a history ev of steps [t, c, r]: thread t   *)
(* starts call c, or (c = 0) finishes with result r; or twins, two calls   *)
(* that differ only in the type of string given.                           *)
(***************************************************************************)
EXTENDS TraceJudge, SequencesExt

ASSUME TLCSet(1, JsonDeserialize(IOEnv.TABLE))
TAnswer(c) == TLCGet(1)[c]
M == INSTANCE CallModel WITH Threads <- 1..16, Depth <- 0, Answer <- TAnswer, running <- <<>>, memo <- {}, last <- <<>>, hist <- <<>>

CallVerdict(e) ==
    IF e.mode = "twins" THEN IF TAnswer(e.a) = TAnswer(e.b) THEN "ok" ELSE "the type of string makes a difference"
    ELSE LET z == FoldLeft(LAMBDA acc, s : M!HStep(acc, s), [running |-> [t \in 1..16 |-> 0], bad |-> 0], e.ev) IN
         IF z.bad = 0 THEN "ok" ELSE "result depends on other calls"
=============================================================================
