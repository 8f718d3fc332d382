---------------------------- MODULE RuleSpelling -----------------------------
(***************************************************************************)
(* The token sequence of a rule, and what it means for a text to spell it: *)
(* the tokens in order with nothing but blanks between them, up to         *)
(* equivalent spellings (mod or %, … or ..., leading zeros).  Used in both *)
(* directions: to write down sentences, and to decide whether a tree       *)
(* accounts for every character of a text.                                 *)
(***************************************************************************)
EXTENDS RuleSyntax

Word(w) == [num |-> FALSE, alts |-> {Chars(w)}, d |-> <<>>]
Words2(v, w) == [num |-> FALSE, alts |-> {Chars(v), Chars(w)}, d |-> <<>>]
Digs(d) == [num |-> TRUE, alts |-> {}, d |-> d]

OpWords(r) == CASE r = "EQ" -> <<Word("=")>> [] r = "NotEQ" -> <<Word("!=")>>
                [] r = "In" -> <<Word("in")>> [] r = "NotIn" -> <<Word("not"), Word("in")>>
                [] r = "Is" -> <<Word("is")>> [] r = "IsNot" -> <<Word("is"), Word("not")>>
                [] r = "Within" -> <<Word("within")>> [] r = "NotWithin" -> <<Word("not"), Word("within")>>

\* concatenation of F(1) .. F(n) with a separator between
Sep(F(_), n, sep) ==
    LET G(acc, k) == IF k = 1 THEN F(1) ELSE acc \o sep \o F(k)
    IN FoldLeft(G, <<>>, [k \in 1..n |-> k])

RelToks(rel) ==
    LET Item(k) == IF rel.l[k].rg THEN <<Digs(rel.l[k].lo), Word(".."), Digs(rel.l[k].hi)>> ELSE <<Digs(rel.l[k].lo)>>
    IN <<Word(rel.o)>> \o (IF rel.hm THEN <<Words2("mod", "%"), Digs(rel.m)>> ELSE <<>>)
       \o OpWords(rel.r) \o Sep(Item, Len(rel.l), <<Word(",")>>)
AndToks(ands) == LET F(k) == RelToks(ands[k]) IN Sep(F, Len(ands), <<Word("and")>>)
CondToks(cond) == LET F(k) == AndToks(cond[k]) IN Sep(F, Len(cond), <<Word("or")>>)

DecToks(x) == IF x.hf THEN <<Digs(x.int), Word("."), Digs(Norm(x.fr))>> ELSE <<Digs(x.int)>>
SampleToks(word, sl) ==
    LET F(k) == DecToks(sl.r[k].lo) \o (IF sl.r[k].rg THEN <<Word("~")>> \o DecToks(sl.r[k].hi) ELSE <<>>)
    IN IF ~sl.h THEN <<>>
       ELSE <<Word(word)>> \o Sep(F, Len(sl.r), <<Word(",")>>)
            \o (IF sl.e THEN <<Word(","), Words2("...", "…")>> ELSE <<>>)
RuleToks(rule) == CondToks(rule.cond) \o SampleToks("@integer", rule.si) \o SampleToks("@decimal", rule.sd)

IsSpace(c) == c \in {" ", "\t", "\n"}
RECURSIVE SkipSpace(_, _)
SkipSpace(cs, p) == IF p <= Len(cs) /\ IsSpace(cs[p]) THEN SkipSpace(cs, p + 1) ELSE p

\* the position after the tokens from j on, spelled from p on; 0 when they are not there
RECURSIVE MatchToks(_, _, _, _)
MatchToks(cs, p, toks, j) ==
    IF j > Len(toks) THEN p
    ELSE LET q == SkipSpace(cs, p)
             t == toks[j]
         IN IF t.num
            THEN IF q > Len(cs) \/ ~IsDigitChar(cs[q]) THEN 0
                 ELSE LET z == DigitRun(cs, q) IN
                      IF Norm(DigitsOf(SubSeq(cs, q, z))) = t.d THEN MatchToks(cs, z + 1, toks, j + 1) ELSE 0
            ELSE LET ok == {a \in t.alts : q + Len(a) - 1 <= Len(cs) /\ SubSeq(cs, q, q + Len(a) - 1) = a}
                 IN IF ok = {} THEN 0
                    ELSE MatchToks(cs, q + Len(CHOOSE a \in ok : \A b \in ok : Len(a) >= Len(b)), toks, j + 1)

\* the whole text spells the tokens
Spells(text, toks) ==
    LET cs == Chars(text)
        p == MatchToks(cs, 1, toks, 1)
    IN p # 0 /\ SkipSpace(cs, p) = Len(cs) + 1
\* the text starts with the tokens; only blanks or an @ section follow
SpellsPrefix(text, toks) ==
    LET cs == Chars(text)
        p == MatchToks(cs, 1, toks, 1)
        q == IF p = 0 THEN 0 ELSE SkipSpace(cs, p)
    IN p # 0 /\ (q = Len(cs) + 1 \/ cs[q] = "@")

\* no empty list anywhere; a condition without relations has no parts at all
WellFormedCond(cond) ==
    \A a \in 1..Len(cond) : Len(cond[a]) > 0 /\ \A b \in 1..Len(cond[a]) : Len(cond[a][b].l) > 0
WellFormed(rule) ==
    /\ WellFormedCond(rule.cond)
    /\ rule.si.h => Len(rule.si.r) > 0
    /\ rule.sd.h => Len(rule.sd.r) > 0

\* the canonical text: one blank between all tokens
TokText(t) == IF t.num THEN Text(t.d) ELSE Join(CHOOSE a \in t.alts : TRUE)
\* a fraction is one token with its point
CanonText(rule) ==
    LET toks == RuleToks(rule)
        F(acc, k) == acc \o (IF k = 1 \/ TokText(toks[k]) = "." \/ TokText(toks[k - 1]) = "." THEN "" ELSE " ") \o TokText(toks[k])
    IN FoldLeft(F, "", [k \in 1..Len(toks) |-> k])

MaxValue == U64MAX
FitsRule(rule) ==
    /\ \A a \in 1..Len(rule.cond) : \A b \in 1..Len(rule.cond[a]) :
        LET r == rule.cond[a][b] IN
        Leq(r.m, MaxValue) /\ \A k \in 1..Len(r.l) : Leq(r.l[k].lo, MaxValue) /\ Leq(r.l[k].hi, MaxValue)
    /\ \A s \in {rule.si, rule.sd} : \A k \in 1..Len(s.r) : \A x \in {s.r[k].lo, s.r[k].hi} :
        Leq(x.int, MaxValue) /\ Leq(Norm(x.fr), MaxValue)
=============================================================================
