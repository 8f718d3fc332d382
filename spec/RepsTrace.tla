------------------------------ MODULE RepsTrace ------------------------------
(***************************************************************************)
(* C07: one number, selected through every argument type that can hold it  *)
(* and with both signs.  rs is the sequence of <<type, category>>; the     *)
(* outcomes must be one and the same.  No reference to CLDR here: a wrong  *)
(* but uniform answer is C01/C02's business.                               *)
(***************************************************************************)
EXTENDS TraceJudge

RepsVerdict(e) ==
    LET rs == e.rs IN
    IF \E k \in 1..Len(rs) : rs[k][2] = "panic" THEN "panic"
    ELSE IF \A k \in 2..Len(rs) : rs[k][2] = rs[1][2] THEN "ok"
    ELSE "the category depends on how the number is given"
=============================================================================
