----------------------------- MODULE RuleSyntax ------------------------------
(***************************************************************************)
(* The plural rule grammar of UTS #35 as a machine that reads one token    *)
(* per step and builds the rule:                                           *)
(*                                                                         *)
(*   rule      = condition? samples                                        *)
(*   condition = and ('or' and)*          and = relation ('and' relation)* *)
(*   relation  = expr op list             expr = operand (('mod'|'%') val)?*)
(*   op        = '=' | '!=' | 'in' | 'not' 'in' | 'within'                 *)
(*             | 'not' 'within' | 'is' | 'is' 'not'                        *)
(*   list      = item (',' item)*         item = value ('..' value)?       *)
(*   samples   = ('@integer' sl)? ('@decimal' sl)?                         *)
(*   sl        = sr (',' sr)* (',' '…')?  sr = dec ('~' dec)?              *)
(*                                                                         *)
(* ('is' with a list is tolerated, as in the implementation: the tree      *)
(* represents it faithfully.)  A token is [k |-> kind, d |-> digits,       *)
(* fr |-> fraction digits]; only kinds "num" and "dec" carry digits.       *)
(***************************************************************************)
EXTENDS Digits

T(k) == [k |-> k, d |-> <<>>, fr |-> <<>>]
TNum(d) == [k |-> "num", d |-> Norm(d), fr |-> <<>>]
TDec(d, fr) == [k |-> "dec", d |-> Norm(d), fr |-> fr]

OperandToks == {"n", "i", "v", "w", "f", "t"}
WordToks == OperandToks \cup {"and", "or", "mod", "is", "not", "in", "within"}

NoRel == [o |-> "", hm |-> FALSE, m |-> <<>>, r |-> "", l |-> <<>>]
NoSamples == [h |-> FALSE, r |-> <<>>, e |-> FALSE]
RInit == [m |-> "start", cond |-> <<>>, ands |-> <<>>, rel |-> NoRel,
          si |-> NoSamples, sd |-> NoSamples, sec |-> ""]

RBad(s) == [s EXCEPT !.m = "bad"]

AddVal(s, d) == [s EXCEPT !.m = "item", !.rel.l = Append(@, [lo |-> d, hi |-> d, rg |-> FALSE])]
EndRange(s, d) == [s EXCEPT !.m = "ranged", !.rel.l[Len(s.rel.l)].hi = d,
                            !.rel.l[Len(s.rel.l)].rg = TRUE]
EndRel(s) == [s EXCEPT !.ands = Append(@, s.rel), !.rel = NoRel]
EndAnd(s) == LET q == EndRel(s) IN [q EXCEPT !.cond = Append(@, q.ands), !.ands = <<>>]
\* close whatever is open in the condition
CloseCond(s) == IF s.m \in {"item", "ranged"} THEN EndAnd(s) ELSE s

OpenSamples(s, k) ==
    LET q == CloseCond(s) IN
    IF k = "@integer" THEN
        IF s.m \in {"start", "item", "ranged"}
        THEN [q EXCEPT !.m = "sfirst", !.sec = "i", !.si.h = TRUE] ELSE RBad(s)
    ELSE IF s.m \in {"start", "item", "ranged"} \/ (s.m \in {"sv", "sr", "send"} /\ s.sec = "i")
         THEN [q EXCEPT !.m = "sfirst", !.sec = "d", !.sd.h = TRUE] ELSE RBad(s)

DecOf(tok) == [int |-> tok.d, hf |-> tok.k = "dec", fr |-> tok.fr]
NoDec == [int |-> <<>>, hf |-> FALSE, fr |-> <<>>]
AddSample(s, tok) ==
    LET x == [lo |-> DecOf(tok), rg |-> FALSE, hi |-> NoDec] IN
    IF s.sec = "i" THEN [s EXCEPT !.m = "sv", !.si.r = Append(@, x)]
                   ELSE [s EXCEPT !.m = "sv", !.sd.r = Append(@, x)]
EndSample(s, tok) ==
    IF s.sec = "i" THEN [s EXCEPT !.m = "sr", !.si.r[Len(s.si.r)].rg = TRUE, !.si.r[Len(s.si.r)].hi = DecOf(tok)]
                   ELSE [s EXCEPT !.m = "sr", !.sd.r[Len(s.sd.r)].rg = TRUE, !.sd.r[Len(s.sd.r)].hi = DecOf(tok)]
Ellipsis(s) == IF s.sec = "i" THEN [s EXCEPT !.m = "send", !.si.e = TRUE]
                              ELSE [s EXCEPT !.m = "send", !.sd.e = TRUE]

SetOp(s, r) == [s EXCEPT !.m = "list", !.rel.r = r]

RStep(s, tok) ==
    LET k == tok.k IN
    CASE k \in {"@integer", "@decimal"} -> OpenSamples(s, k)
      [] s.m \in {"start", "operand"} ->
            IF k \in OperandToks THEN [s EXCEPT !.m = "expr", !.rel.o = k] ELSE RBad(s)
      [] s.m = "modval" ->
            IF k = "num" THEN [s EXCEPT !.m = "relop", !.rel.hm = TRUE, !.rel.m = tok.d] ELSE RBad(s)
      [] s.m \in {"expr", "relop"} ->
            CASE k \in {"%", "mod"} -> IF s.m = "expr" THEN [s EXCEPT !.m = "modval"] ELSE RBad(s)
              [] k = "=" -> SetOp(s, "EQ")
              [] k = "!=" -> SetOp(s, "NotEQ")
              [] k = "in" -> SetOp(s, "In")
              [] k = "within" -> SetOp(s, "Within")
              [] k = "is" -> [s EXCEPT !.m = "is", !.rel.r = "Is"]
              [] k = "not" -> [s EXCEPT !.m = "not"]
              [] OTHER -> RBad(s)
      [] s.m = "not" ->
            CASE k = "in" -> SetOp(s, "NotIn") [] k = "within" -> SetOp(s, "NotWithin")
              [] OTHER -> RBad(s)
      [] s.m = "is" /\ k = "not" -> SetOp(s, "IsNot")
      [] s.m \in {"is", "list"} -> IF k = "num" THEN AddVal(s, tok.d) ELSE RBad(s)
      [] s.m = "hi" -> IF k = "num" THEN EndRange(s, tok.d) ELSE RBad(s)
      [] s.m \in {"item", "ranged"} ->
            CASE k = ".." /\ s.m = "item" -> [s EXCEPT !.m = "hi"]
              [] k = "," -> [s EXCEPT !.m = "list"]
              [] k = "and" -> [EndRel(s) EXCEPT !.m = "operand"]
              [] k = "or" -> [EndAnd(s) EXCEPT !.m = "operand"]
              [] OTHER -> RBad(s)
      [] s.m = "sfirst" -> IF k \in {"num", "dec"} THEN AddSample(s, tok) ELSE RBad(s)
      [] s.m = "snext" -> IF k \in {"num", "dec"} THEN AddSample(s, tok)
                          ELSE IF k = "…" THEN Ellipsis(s) ELSE RBad(s)
      [] s.m = "shi" -> IF k \in {"num", "dec"} THEN EndSample(s, tok) ELSE RBad(s)
      [] s.m \in {"sv", "sr"} ->
            CASE k = "~" /\ s.m = "sv" -> [s EXCEPT !.m = "shi"]
              [] k = "," -> [s EXCEPT !.m = "snext"]
              [] OTHER -> RBad(s)
      [] OTHER -> RBad(s)

RAccepting(s) == s.m \in {"start", "item", "ranged", "sv", "sr", "send"}
RuleOf(s) == LET q == CloseCond(s) IN [cond |-> q.cond, si |-> q.si, sd |-> q.sd]

(***************************************************************************)
(* Text to tokens.  Only the canonical lexical form is recognised here:    *)
(* blanks and tabs between tokens, keywords delimited by blanks (or the    *)
(* ends of the text).  [ok, toks].                                         *)
(***************************************************************************)
IsBlank(c) == c \in {" ", "\t"}
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
IsLetter(c) == c \in Letters

Join(cs) == FoldLeft(Concat, "", cs)

\* last position of the maximal run of digits / letters that starts at p
RECURSIVE DigitRun(_, _)
DigitRun(cs, p) == IF p + 1 <= Len(cs) /\ IsDigitChar(cs[p + 1]) THEN DigitRun(cs, p + 1) ELSE p
RECURSIVE LetterRun(_, _)
LetterRun(cs, p) == IF p + 1 <= Len(cs) /\ IsLetter(cs[p + 1]) THEN LetterRun(cs, p + 1) ELSE p

LexFail(toks) == [ok |-> FALSE, toks |-> toks]
RECURSIVE Lex(_, _, _)
Lex(cs, p, toks) ==
    IF p > Len(cs) THEN [ok |-> TRUE, toks |-> toks]
    ELSE LET c == cs[p]
             two == p + 1 <= Len(cs)
         IN
    CASE IsBlank(c) -> Lex(cs, p + 1, toks)
      [] IsDigitChar(c) ->
            LET q == DigitRun(cs, p)
                d == DigitsOf(SubSeq(cs, p, q))
            IN IF q + 2 <= Len(cs) /\ cs[q + 1] = "." /\ IsDigitChar(cs[q + 2])
               THEN LET q2 == DigitRun(cs, q + 2)
                    IN Lex(cs, q2 + 1, Append(toks, TDec(d, DigitsOf(SubSeq(cs, q + 2, q2)))))
               ELSE Lex(cs, q + 1, Append(toks, TNum(d)))
      [] IsLetter(c) ->
            LET q == LetterRun(cs, p)
                w == Join(SubSeq(cs, p, q))
            IN IF w \in OperandToks THEN Lex(cs, q + 1, Append(toks, T(w)))
               ELSE IF w \in WordToks /\ (p = 1 \/ IsBlank(cs[p - 1])) /\ (q = Len(cs) \/ IsBlank(cs[q + 1]))
               THEN Lex(cs, q + 1, Append(toks, T(w)))
               ELSE LexFail(toks)
      [] c \in {"%", "=", ",", "~", "…"} -> Lex(cs, p + 1, Append(toks, T(c)))
      [] c = "!" -> IF two /\ cs[p + 1] = "=" THEN Lex(cs, p + 2, Append(toks, T("!="))) ELSE LexFail(toks)
      [] c = "." -> IF p + 2 <= Len(cs) /\ cs[p + 1] = "." /\ cs[p + 2] = "." THEN Lex(cs, p + 3, Append(toks, T("…")))
                    ELSE IF two /\ cs[p + 1] = "." THEN Lex(cs, p + 2, Append(toks, T("..")))
                    ELSE LexFail(toks)
      [] c = "@" ->
            LET q == LetterRun(cs, p)
                w == Join(SubSeq(cs, p, q))
            IN IF w \in {"@integer", "@decimal"} /\ (p = 1 \/ IsBlank(cs[p - 1])) /\ (q = Len(cs) \/ IsBlank(cs[q + 1]))
               THEN Lex(cs, q + 1, Append(toks, T(w))) ELSE LexFail(toks)
      [] OTHER -> LexFail(toks)

LexText(text) == Lex(Chars(text), 1, <<>>)
RRun(toks) == FoldLeft(RStep, RInit, toks)
\* [ok, rule]: the rule a canonical text denotes
ParseText(text) ==
    LET lx == LexText(text)
        s == RRun(lx.toks)
    IN IF lx.ok /\ RAccepting(s) THEN [ok |-> TRUE, rule |-> RuleOf(s)]
       ELSE [ok |-> FALSE, rule |-> RuleOf(RInit)]
=============================================================================
