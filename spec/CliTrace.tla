------------------------------ MODULE CliTrace -------------------------------
(***************************************************************************)
(* C18: recorded runs of the command.  ins, outp, fmt, tool: the scenario; *)
(* rc the exit status (0 success); after: what the output path holds       *)
(* afterwards - "before" (exactly what it was), "plain", "pretty" (the     *)
(* expected complete texts) or "other"; kept: 1 when no input changed.     *)
(***************************************************************************)
EXTENDS TraceJudge, SequencesExt, FiniteSets

M == INSTANCE CliModel WITH Inputs <- {}, Outputs <- {}, MaxInputs <- 0, Emit <- FALSE,
    ins <- <<>>, outp <- "", fmt <- "", tool <- "", pc <- "", k <- 0, out <- ""

CliVerdict(e) ==
    IF e.kept = 0 THEN "an input was modified"
    ELSE IF M!Allowed(e.ins, e.outp, e.fmt, e.tool, e.rc = 0, e.after) THEN "ok"
    ELSE IF M!InputsFine(e.ins) THEN
        IF e.rc = 0 /\ e.fmt = "pretty" /\ e.tool # "fine" THEN "success although the output could not be formatted"
        ELSE IF e.rc # 0 THEN "failed without a fault"
        ELSE IF M!OutputFine(e.outp) THEN "the output is not the complete code" ELSE "success although the output was not written"
    ELSE IF e.rc = 0 THEN "success although the inputs are faulty"
    ELSE "the output was touched although the inputs are faulty"
=============================================================================
