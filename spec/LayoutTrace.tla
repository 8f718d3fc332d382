----------------------------- MODULE LayoutTrace -----------------------------
(***************************************************************************)
(* C20: two recorded generations.  a, b: the documents as read from the    *)
(* files given to the generator, v the version and m the members <<type,   *)
(* identifier in canonical spelling, category, text of the rule>>; oka,    *)
(* okb: 1 when generated; ha, hb: hashes of the outputs.                   *)
(* The condition of a rule is what the text before @ denotes.             *)
(***************************************************************************)
EXTENDS RuleSyntax, TraceJudge, FiniteSets

\* the rule of OTHER is what remains: its text is read but decides nothing, so it is a fact as well
Condition(t) ==
    LET cs == Chars(t)
        at == SelectInSeq(cs, LAMBDA c : c = "@")
        lx == Lex(IF at = 0 THEN cs ELSE SubSeq(cs, 1, at - 1), 1, <<>>)
        s == RRun(lx.toks)
    IN IF lx.ok /\ RAccepting(s) THEN RuleOf(s).cond ELSE <<"not a rule", t>>
FactsOf(d) == [v |-> d.v, m |-> {<<d.m[k][1], d.m[k][2], d.m[k][3], Condition(d.m[k][4])>> : k \in 1..Len(d.m)}]

LayoutVerdict(e) ==
    IF FactsOf(e.a) # FactsOf(e.b) THEN "not the same data (harness)"
    ELSE IF e.oka # e.okb THEN "generated or refused depending on the layout"
    ELSE IF e.oka = 1 /\ e.ha # e.hb THEN "another output for the same data"
    ELSE "ok"
=============================================================================
