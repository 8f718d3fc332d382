------------------------------ MODULE GenTrace -------------------------------
(***************************************************************************)
(* C14/C15: libraries regenerated from data sets.                          *)
(*  k = "rules"  rules: category -> rule text of one locale as in the data *)
(*               set; xs: numbers with the categories the compiled library *)
(*               returned for them                                         *)
(*  k = "list"   keys: the locale keys of the data set; locs: get_locales  *)
(*  k = "make"   id (canonical text), in: 1 when the data set has it, ok:  *)
(*               "ok"/"err"/"PANIC", got: get_locale                       *)
(*  k = "version" want, got                                                *)
(***************************************************************************)
EXTENDS RuleSyntax, RuleSemantics, TraceJudge, FiniteSets

All(rel) == TRUE
GenVerdictRules(e) ==
    LET ps == [c \in DOMAIN e.rules \ {"other"} |-> ParseText(e.rules[c])]
        rules == [c \in DOMAIN ps |-> ps[c].rule.cond]
        devs == [c \in DOMAIN ps |-> Mark(ps[c].rule.cond, All)]
        Ok(k) == e.xs[k][2] \in Acceptable(rules, Operands(PlainNumeral(e.xs[k][1])))
        Dev(k) == e.xs[k][2] \in DevAcceptable(devs, Operands(PlainNumeral(e.xs[k][1])))
        off == {k \in 1..Len(e.xs) : ~Ok(k)}
        bad == {k \in off : ~Dev(k)}
    IN IF \E c \in DOMAIN ps : ~ps[c].ok THEN "rule text of the data set is not well formed"
       ELSE IF bad # {} THEN LET k == CHOOSE j \in bad : TRUE IN "category of " \o e.xs[k][1] \o " is " \o e.xs[k][2]
       ELSE IF off # {} THEN "known" ELSE "ok"

GenVerdict(e) ==
    CASE e.k = "rules" -> GenVerdictRules(e)
      [] e.k = "list" -> IF Len(e.locs) # Cardinality(ToSet(e.locs)) THEN "a locale is listed twice"
                         ELSE IF ToSet(e.locs) # ToSet(e.keys) \ {"root"} THEN "the list is not the data set's locales"
                         ELSE "ok"
      [] e.k = "make" -> IF e.in = 1 THEN IF e.ok # "ok" THEN "no rules for a locale of the data set"
                                          ELSE IF e.got # e.id THEN "the instance reports another locale" ELSE "ok"
                         ELSE IF e.ok = "err" THEN "ok" ELSE "rules for an identifier that is not in the data set"
      [] e.k = "version" -> IF e.got = e.want THEN "ok" ELSE "version"
=============================================================================
