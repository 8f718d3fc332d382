----------------------------- MODULE ParserTrace -----------------------------
(***************************************************************************)
(* C10-C13: recorded parses.  An event: x the text; ok 1 accepted, 0       *)
(* refused, 2 panicked; cond, si, sd, hs the tree (hs: samples present);   *)
(* cok, ccond what the condition parser made of the same text.  Numbers    *)
(* are decimal text.  White space other than blank and tab is given as a   *)
(* newline.  CLASS selects the property.                                   *)
(***************************************************************************)
EXTENDS RuleSpelling, TraceJudge

GRel(r) == [o |-> r.o, hm |-> r.hm = 1, m |-> FromText(r.m), r |-> r.r,
            l |-> [k \in 1..Len(r.l) |-> [lo |-> FromText(r.l[k].lo), hi |-> FromText(r.l[k].hi), rg |-> r.l[k].rg = 1]]]
GCond(c) == [a \in 1..Len(c) |-> [b \in 1..Len(c[a]) |-> GRel(c[a][b])]]
GDec(x) == [int |-> FromText(x.int), hf |-> x.hf = 1, fr |-> IF x.hf = 1 THEN DigitsOf(Chars(x.fr)) ELSE <<>>]
GSamples(s) == [h |-> s.h = 1, e |-> s.e = 1,
                r |-> [k \in 1..Len(s.r) |-> [lo |-> GDec(s.r[k].lo), rg |-> s.r[k].rg = 1, hi |-> GDec(s.r[k].hi)]]]
GRule(e) == [cond |-> GCond(e.cond), si |-> GSamples(e.si), sd |-> GSamples(e.sd)]

\* recorded finding: zeros at the front of fraction digits are lost
LoseDec(x) == [x EXCEPT !.fr = IF x.hf THEN (IF Norm(@) = <<>> THEN <<0>> ELSE Norm(@)) ELSE @]
LoseSamples(s) == [s EXCEPT !.r = [k \in 1..Len(s.r) |-> [lo |-> LoseDec(s.r[k].lo), rg |-> s.r[k].rg, hi |-> LoseDec(s.r[k].hi)]]]

Sentence(e) == LET p == ParseText(e.x) IN [ok |-> p.ok /\ FitsRule(p.rule), rule |-> p.rule]

C10V(e) ==
    LET p == Sentence(e) IN
    IF ~p.ok THEN "ok"
    ELSE IF e.ok = 2 \/ e.cok = 2 THEN "panic"
    ELSE IF e.ok = 0 THEN "refused a well-formed rule"
    ELSE IF GCond(e.cond) # p.rule.cond THEN "another condition"
    ELSE IF e.cok = 0 THEN "the condition parser refused a well-formed rule"
    ELSE IF GCond(e.ccond) # p.rule.cond THEN "another condition from the condition parser"
    ELSE "ok"

C11V(e) ==
    IF e.ok = 2 \/ e.cok = 2 THEN "panic"
    ELSE IF e.ok = 0 THEN "ok"
    ELSE LET r == GRule(e) IN
         IF ~WellFormed(r) THEN "accepted with an empty list"
         ELSE IF Spells(e.x, RuleToks(r)) THEN "ok"
         ELSE "accepted, but the tree does not spell the text"

C12V(e) ==
    LET p == Sentence(e) IN
    IF ~p.ok THEN "ok"
    ELSE IF e.ok # 1 THEN "refused a rule with samples"
    ELSE IF (e.hs = 1) # (p.rule.si.h \/ p.rule.sd.h) THEN "samples present"
    ELSE LET gi == GSamples(e.si) gd == GSamples(e.sd) IN
         IF gi = p.rule.si /\ gd = p.rule.sd THEN "ok"
         ELSE IF gi = LoseSamples(p.rule.si) /\ gd = LoseSamples(p.rule.sd) THEN "known"
         ELSE "samples"

C13V(e) ==
    IF e.cok = 2 THEN "panic"
    ELSE IF e.ok = 1 /\ e.cok = 0 THEN "refused what the full parser accepts"
    ELSE IF e.ok = 1 /\ GCond(e.cond) # GCond(e.ccond) THEN "the parsers disagree"
    ELSE IF e.cok = 1 /\ ~SpellsPrefix(e.x, CondToks(GCond(e.ccond))) THEN "text was ignored"
    ELSE "ok"

ParseVerdict(e) ==
    LET c == IOEnv.CLASS IN
    CASE c = "C10" -> C10V(e) [] c = "C11" -> C11V(e) [] c = "C12" -> C12V(e) [] c = "C13" -> C13V(e)
=============================================================================
