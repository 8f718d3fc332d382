------------------------------ MODULE CliModel -------------------------------
(***************************************************************************)
(* C18: one run of the generator command.  The arguments are taken (there  *)
(* must be an input and an output), the inputs are read in turn, the       *)
(* code is generated, the output is opened (truncating), written and, if   *)
(* asked for, formatted in place.  Every step can meet a fault:            *)
(*   inputs  "c" "o" good cardinal/ordinal data; "n" a version and nothing *)
(*           else; "c2" data of another version; "missing",                *)
(*           "dir", "utf8" (not UTF-8), "notdata",     *)
(*           "badrule" (a rule that cannot be read)                        *)
(*   output  "absent", "short", "long" (previous contents), "dir" (a       *)
(*           directory), "noparent", "full" (no space), "limit" (file size *)
(*           limit met while writing), "none" (no output path given); for  *)
(*           runs that reach it also "same"                                *)
(*           (holds the result already), "samelen" (other contents of the  *)
(*           same length), "stale" (the same code in the other format),    *)
(*           "link" (a symbolic link to a file)                            *)
(*   fmt     "plain" (-u), "pretty"                                        *)
(*   tool    the formatter: "fine", "missing" (cannot be started),         *)
(*           "failing" (exits with failure); it is only needed for pretty  *)
(* out is what the output path holds; done the exit.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS Inputs, Outputs, MaxInputs, Emit

Readable(k) == k \notin {"missing", "dir", "utf8"}
Data(k) == k \notin {"notdata", "badrule"}
Version(k) == IF k = "c2" THEN "36" ELSE "37"
Types(k) == CASE k = "o" -> {"o"} [] k = "n" -> {} [] OTHER -> {"c"}

Combine(s) == /\ \A j \in 1..Len(s) : Data(s[j]) /\ Version(s[j]) = Version(s[1])
              /\ \A i, j \in 1..Len(s) : i # j => Types(s[i]) \cap Types(s[j]) = {}
              /\ \E j \in 1..Len(s) : Types(s[j]) # {}
InputsFine(s) == (\A j \in 1..Len(s) : Readable(s[j])) /\ Combine(s)
Earlier == {"same", "samelen", "stale", "link"}

VARIABLES ins, outp, fmt, tool, pc, k, out
vars == <<ins, outp, fmt, tool, pc, k, out>>

InputLists == UNION {[1..n -> Inputs] : n \in 0..MaxInputs}
Init == /\ ins \in InputLists
        /\ outp \in (IF InputsFine(ins) THEN Outputs \cup Earlier ELSE Outputs)
        /\ fmt \in {"plain", "pretty"}
        /\ tool \in (IF outp \in {"absent", "long"} THEN {"fine", "missing", "failing"} ELSE {"fine"})
        /\ pc = "args" /\ k = 1 /\ out = "before"

Fail == pc' = "failed" /\ UNCHANGED <<ins, outp, fmt, tool, k, out>>
Args == /\ pc = "args"
        /\ IF ins = <<>> \/ outp = "none" THEN Fail ELSE pc' = "read" /\ UNCHANGED <<ins, outp, fmt, tool, k, out>>
Read == /\ pc = "read"
        /\ IF ~Readable(ins[k]) THEN Fail
           ELSE IF k < Len(ins) THEN k' = k + 1 /\ UNCHANGED <<ins, outp, fmt, tool, pc, out>>
           ELSE pc' = "generate" /\ UNCHANGED <<ins, outp, fmt, tool, k, out>>
Generate == /\ pc = "generate"
            /\ IF Combine(ins) THEN pc' = "create" /\ UNCHANGED <<ins, outp, fmt, tool, k, out>> ELSE Fail
Create == /\ pc = "create"
          /\ IF outp \in {"dir", "noparent"} THEN Fail
             ELSE pc' = "write" /\ out' = "empty" /\ UNCHANGED <<ins, outp, fmt, tool, k>>
Write == /\ pc = "write"
         /\ IF outp \in {"full", "limit"} THEN pc' = "failed" /\ out' = "partial" /\ UNCHANGED <<ins, outp, fmt, tool, k>>
            ELSE out' = "plain" /\ pc' = (IF fmt = "plain" THEN "succeeded" ELSE "format") /\ UNCHANGED <<ins, outp, fmt, tool, k>>
Format == /\ pc = "format"
          /\ IF tool # "fine" THEN Fail
             ELSE out' = "pretty" /\ pc' = "succeeded" /\ UNCHANGED <<ins, outp, fmt, tool, k>>
Next == Args \/ Read \/ Generate \/ Create \/ Write \/ Format
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* the property, stated on the scenario
OutputFine(o) == o \in {"absent", "short", "long"} \cup Earlier
\* what may be observed at the end: exit (TRUE = success) and the state of the output
\* (a command that replaces a device or creates a folder for the output may succeed there)
Allowed(s, o, f, t, ok, after) ==
    IF ~InputsFine(s) THEN ~ok /\ after = "before"
    ELSE IF ~OutputFine(o) THEN ~ok \/ after = f
    ELSE IF f = "pretty" /\ t # "fine" THEN ~ok
    ELSE ok /\ after = f
EndsRight == pc \in {"failed", "succeeded"} => Allowed(ins, outp, fmt, tool, pc = "succeeded", out)
NeverTouched == ~InputsFine(ins) => out = "before"
Ends == <>(pc \in {"failed", "succeeded"})

Printed == Emit /\ pc \in {"failed", "succeeded"} =>
    PrintT("RUN " \o outp \o " " \o fmt \o " " \o tool \o FoldLeft(LAMBDA acc, x : acc \o " " \o x, "", ins))
=============================================================================
