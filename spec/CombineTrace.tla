---------------------------- MODULE CombineTrace -----------------------------
(***************************************************************************)
(* C16: recorded generations.  files: <<version, kind>> in the order given *)
(* same: 1 when repeated runs gave the same output; a: what happened;      *)
(* h: hash of the output, h0: that of the same files in the order that was *)
(* run first.                                                              *)
(***************************************************************************)
EXTENDS TraceJudge, SequencesExt, FiniteSets

M == INSTANCE CombineModel WITH Versions <- {}, Kinds <- {}, MaxFiles <- 0, Emit <- FALSE,
    seq <- <<>>, version <- "", types <- {}, refused <- FALSE

CombineVerdict(e) ==
    LET want == M!Outcome(e.files) IN
    IF e.a.ok # want.ok THEN IF want.ok = 1 THEN "refused files that combine" ELSE "accepted files that do not combine"
    ELSE IF e.same = 0 THEN "another output on another run"
    ELSE IF want.ok = 0 THEN "ok"
    ELSE IF e.a.version # want.version THEN "version"
    ELSE IF e.a.card < want.card \/ e.a.ord < want.ord THEN "a rule type is missing"
    ELSE IF e.h # e.h0 THEN "another output for another order"
    ELSE "ok"
=============================================================================
