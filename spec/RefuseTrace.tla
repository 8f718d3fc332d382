---------------------------- MODULE RefuseTrace ------------------------------
(***************************************************************************)
(* C19: recorded generations from data that is well formed but for one     *)
(* rule (category cat, rule text text) under one locale key.  ok: 1 code   *)
(* was generated, 0 refused.  White space other than blank and tab is      *)
(* given as a newline, characters outside ASCII as "$".                    *)
(***************************************************************************)
EXTENDS RuleSpelling, RuleSemantics, TraceJudge, FiniteSets

\* the text before the sample section
CondChars(text) ==
    LET cs == Chars(text)
        p == SelectInSeq(cs, LAMBDA c : c = "@")
    IN IF p = 0 THEN cs ELSE SubSeq(cs, 1, p - 1)

(***************************************************************************)
(* Generous reading: the text is some token sequence of a condition with   *)
(* nothing but white space between the tokens, wherever it may be missing  *)
(* (readers differ on that).  A text that cannot even be read this way     *)
(* must be refused.                                                        *)
(***************************************************************************)
Symbols == {"%", "=", "!=", ",", ".."}
RECURSIVE Generous(_, _, _)
Generous(cs, p, s) ==
    IF p > Len(cs) THEN RAccepting(s)
    ELSE IF IsSpace(cs[p]) THEN Generous(cs, p + 1, s)
    ELSE IF IsDigitChar(cs[p]) THEN
         LET q == DigitRun(cs, p)
             r == RStep(s, TNum(DigitsOf(SubSeq(cs, p, q))))
         IN r.m # "bad" /\ Generous(cs, q + 1, r)
    ELSE \E w \in WordToks \cup Symbols :
            LET n == Len(w) IN
            /\ p + n - 1 <= Len(cs)
            /\ Join(SubSeq(cs, p, p + n - 1)) = w
            /\ LET r == RStep(s, T(w)) IN r.m # "bad" /\ Generous(cs, p + n, r)
MayRead(cs) == Generous(cs, 1, RInit)

(***************************************************************************)
(* CLDR's usual spelling of a condition: one blank between tokens, none    *)
(* around ".." and ",".  A text spelled so must not be refused (unless a   *)
(* modulus is zero, "is" has a list, or a number exceeds the word).        *)
(***************************************************************************)
UsualText(cond, mod) ==
    LET toks == CondToks(cond)
        Txt(t) == IF t.num THEN Text(t.d) ELSE IF Cardinality(t.alts) = 2 THEN mod ELSE TokText(t)
        Tight(x) == x \in {"..", ","}
        F(acc, k) == acc \o (IF k = 1 \/ Tight(Txt(toks[k])) \/ Tight(Txt(toks[k - 1])) THEN "" ELSE " ") \o Txt(toks[k])
    IN FoldLeft(F, "", [k \in 1..Len(toks) |-> k])
RECURSIVE TrimEnd(_)
TrimEnd(cs) == IF cs # <<>> /\ IsBlank(cs[Len(cs)]) THEN TrimEnd(SubSeq(cs, 1, Len(cs) - 1)) ELSE cs
Rels(cond) == UNION {{cond[a][b] : b \in 1..Len(cond[a])} : a \in 1..Len(cond)}
Usual(cs, cat) ==
    LET text == Join(TrimEnd(cs))
        p == ParseText(text)
    IN /\ p.ok /\ FitsRule(p.rule)
       /\ p.rule.cond # <<>> \/ cat = "other"
       /\ text \in {UsualText(p.rule.cond, "%"), UsualText(p.rule.cond, "mod")}
       /\ \A r \in Rels(p.rule.cond) : /\ r.hm => r.m # <<>>
                                       /\ r.r \in {"Is", "IsNot"} => Len(r.l) = 1 /\ ~r.l[1].rg

(***************************************************************************)
(* Language identifiers: language (2-3 or 5-8 letters), script (4          *)
(* letters), region (2 letters or 3 digits), variants (5-8 letters or      *)
(* digits, or a digit and three), separated by - or _.  (unic-langid, which *)
(* reads the keys, takes any four characters for a variant; a key is only  *)
(* required to be refused when even that reading fails.)                   *)
(***************************************************************************)
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Alpha(c) == c \in Letters \cup Upper
AllAlpha(t) == \A k \in 1..Len(t) : Alpha(t[k])
AllDigit(t) == \A k \in 1..Len(t) : IsDigitChar(t[k])
AllAlnum(t) == \A k \in 1..Len(t) : Alpha(t[k]) \/ IsDigitChar(t[k])
IsLang(t) == Len(t) \in {2, 3, 5, 6, 7, 8} /\ AllAlpha(t)
IsScript(t) == Len(t) = 4 /\ AllAlpha(t)
IsRegion(t) == (Len(t) = 2 /\ AllAlpha(t)) \/ (Len(t) = 3 /\ AllDigit(t))
IsVariant(t) == Len(t) = 4 \/ (Len(t) \in 5..8 /\ AllAlnum(t))
Subtags(cs) == FoldLeft(LAMBDA acc, c : IF c \in {"-", "_"} THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)],
                        << <<>> >>, cs)
\* position 1: after the language, 2: after the script, 3: after region or variants
After(pos, t) == IF pos = 0 THEN -1
    ELSE IF pos = 1 /\ IsScript(t) THEN 2
    ELSE IF pos \in {1, 2} /\ IsRegion(t) THEN 3
    ELSE IF IsVariant(t) THEN 3 ELSE 0
IsLangId(key) ==
    LET st == Subtags(Chars(key)) IN
    /\ IsLang(st[1])
    /\ FoldLeft(LAMBDA pos, k : IF pos = 0 THEN 0 ELSE After(pos, st[k]), 1, [k \in 1..Len(st) - 1 |-> k + 1]) # 0
\* language, script, region only: the generator supports these
PlainLangId(key) ==
    LET st == Subtags(Chars(key)) IN
    /\ IsLang(st[1]) /\ Len(st) <= 3
    /\ Len(st) = 2 => IsScript(st[2]) \/ IsRegion(st[2])
    /\ Len(st) = 3 => IsScript(st[2]) /\ IsRegion(st[3])

RefuseVerdict(e) ==
    LET cs == CondChars(e.text) IN
    IF e.key = "root" THEN "ok"
    ELSE IF ~IsLangId(e.key) THEN IF e.ok = 1 THEN "accepted a key that is not a language identifier" ELSE "ok"
    ELSE IF e.ok = 1 THEN IF MayRead(cs) THEN "ok" ELSE "accepted a rule that is not well formed"
    ELSE IF PlainLangId(e.key) /\ Usual(cs, e.cat) THEN "refused well-formed data" ELSE "ok"
=============================================================================
