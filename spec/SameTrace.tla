----------------------------- MODULE SameTrace -------------------------------
(***************************************************************************)
(* C17: the shipped library and the one regenerated from the shipped data, *)
(* side by side.  k = "version": a, b; k = "list": wa, wb the locale       *)
(* lists; k = "select": a, b the categories (one letter each) the two      *)
(* return for the same numbers, E/e/P for refusals and panics.             *)
(***************************************************************************)
EXTENDS TraceJudge, FiniteSets, SequencesExt

SameVerdict(e) ==
    CASE e.k = "version" -> IF e.a = e.b THEN "ok" ELSE "version"
      [] e.k = "list" -> IF ToSet(e.wa) = ToSet(e.wb) /\ Len(e.wa) = Len(e.wb) THEN "ok" ELSE "locale list"
      [] e.k = "select" -> IF e.a = e.b THEN "ok" ELSE "categories differ"
=============================================================================
