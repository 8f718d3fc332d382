------------------------------ MODULE RuleModel ------------------------------
(***************************************************************************)
(* The rule grammar machine explored over all token sequences up to MaxLen *)
(* from a vocabulary.  Invariants on the specification itself:             *)
(*  RoundTrip   the canonical text of the rule read is read as that rule   *)
(*  OwnSpelling the canonical text spells the rule and is well formed      *)
(*  Deadline    every non-bad state can still be completed (Finish)        *)
(* and every sentence reached is printed for the conformance runs.         *)
(***************************************************************************)
EXTENDS RuleSpelling, TLC, FiniteSets

CONSTANTS Vocab, MaxLen, Emit

\* vocabularies; digits stand for number tokens, "1.05" like words for decimals
Tok(w) == LET cs == Chars(w) IN
    \* (the state keeps to ASCII: TLC loses other characters when its queue goes to disk)
    IF w = "..." THEN T("…") ELSE IF ~IsDigitChar(cs[1]) THEN T(w)
    ELSE LET p == SelectInSeq(cs, LAMBDA c : c = ".") IN
         IF p = 0 THEN TNum(DigitsOf(cs))
         ELSE TDec(DigitsOf(SubSeq(cs, 1, p - 1)), DigitsOf(SubSeq(cs, p + 1, Len(cs))))

VARIABLES s, n, text
vars == <<s, n, text>>

Init == s = RInit /\ n = 0 /\ text = ""
Next == /\ n < MaxLen
        /\ \E w \in Vocab :
            LET q == RStep(s, Tok(w)) IN
            /\ q.m # "bad"
            /\ s' = q /\ n' = n + 1
            /\ text' = IF text = "" THEN w ELSE text \o " " \o w
Spec == Init /\ [][Next]_vars

\* zeros of a fraction have no place in the canonical text used here
NoZeroFr(x) == x.hf => Norm(x.fr) = x.fr
Plain(rule) == \A sl \in {rule.si, rule.sd} : \A k \in 1..Len(sl.r) : NoZeroFr(sl.r[k].lo) /\ (sl.r[k].rg => NoZeroFr(sl.r[k].hi))

RoundTrip == RAccepting(s) =>
    LET r == RuleOf(s) IN Plain(r) => ParseText(CanonText(r)) = [ok |-> TRUE, rule |-> r]
OwnSpelling == RAccepting(s) =>
    LET r == RuleOf(s) IN WellFormed(r) /\ Spells(text, RuleToks(r)) /\ (Plain(r) => Spells(CanonText(r), RuleToks(r)))
ReadsItself == RAccepting(s) => ParseText(text) = [ok |-> TRUE, rule |-> RuleOf(s)]
Printed == Emit /\ RAccepting(s) => PrintT(<<"SENTENCE", text>>)
=============================================================================
