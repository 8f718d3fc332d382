----------------------------- MODULE SelectTrace -----------------------------
(***************************************************************************)
(* C01/C02: recorded select calls.  An event gives rule type, locale, the  *)
(* number as a decimal numeral and the category returned.                  *)
(***************************************************************************)
EXTENDS Cldr, TraceJudge

SelVerdict(e) ==
    LET ops == Operands(PlainNumeral(e.x)) IN
    IF e.r \in Acceptable(CldrConds(e.ty, e.loc), ops) THEN "ok"
    ELSE IF e.r \in DevAcceptable(MarkedConds(e.ty, e.loc), ops) THEN "known"
    ELSE "category"
=============================================================================
