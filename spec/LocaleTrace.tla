----------------------------- MODULE LocaleTrace -----------------------------
(***************************************************************************)
(* C08: recorded locale lists and creations.                               *)
(*   k = "list"    ty, locs: what get_locales returned, in order           *)
(*   k = "create"  ty, loc: identifier asked for (canonical text), ok: 1   *)
(*                 created, 0 refused, 2 panicked; got: get_locale of the  *)
(*                 instance; ps: <<number, category>> probes on it         *)
(* An identifier is on the list iff its canonical text is a CLDR key.      *)
(***************************************************************************)
EXTENDS Cldr, TraceJudge

\* the instance carries the rules of its locale (C01/C02 findings are not reported again)
Probe(ty, loc, p) ==
    LET ops == Operands(PlainNumeral(p[1])) IN
    p[2] \in Acceptable(CldrConds(ty, loc), ops) \/ p[2] \in DevAcceptable(MarkedConds(ty, loc), ops)

LocVerdict(e) ==
    IF e.k = "list" THEN
        IF Len(e.locs) # Cardinality(ToSet(e.locs)) THEN "a locale is listed twice"
        ELSE IF ToSet(e.locs) # Locales(e.ty) THEN "the list is not the CLDR locales"
        ELSE "ok"
    ELSE IF e.ok = 2 THEN "panic"
    ELSE IF e.loc \in Locales(e.ty) THEN
        IF e.ok = 0 THEN "refused a listed locale"
        ELSE IF e.got # e.loc THEN "the instance reports another locale"
        ELSE IF \E j \in 1..Len(e.ps) : ~Probe(e.ty, e.loc, e.ps[j]) THEN "the instance carries other rules"
        ELSE "ok"
    ELSE IF e.ok = 1 THEN "created a locale that is not listed" ELSE "ok"
=============================================================================
