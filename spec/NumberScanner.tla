---------------------------- MODULE NumberScanner ----------------------------
(***************************************************************************)
(* What a piece of text denotes as a number, as a scanner that reads one   *)
(* character per step.  Two languages are distinguished:                   *)
(*   plain    -?D+(.D+)?       must be converted, exactly                  *)
(*   lenient  other spellings of a finite number (leading +, exponent,     *)
(*            missing digits on one side of the point): may be refused,    *)
(*            but if converted then to the value they denote               *)
(* Everything else is not a number and must be refused.                    *)
(***************************************************************************)
EXTENDS Numbers, Integers

ScanInit == [m |-> "start", plain |-> TRUE, int |-> <<>>, frac |-> <<>>,
             eneg |-> FALSE, exp |-> <<>>]

Bad(s) == [s EXCEPT !.m = "bad"]
Goto(s, m) == [s EXCEPT !.m = m]
Loose(s, m) == [s EXCEPT !.m = m, !.plain = FALSE]

\* one character
ScanStep(s, c) ==
    CASE s.m = "start" ->
            IF c = "-" THEN Goto(s, "sign")
            ELSE IF c = "+" THEN Loose(s, "sign2")
            ELSE IF IsDigitChar(c) THEN [s EXCEPT !.m = "int", !.int = Append(@, CharDigit[c])]
            ELSE IF c = "." THEN Loose(s, "dot0")
            ELSE Bad(s)
      [] s.m = "sign" ->
            IF IsDigitChar(c) THEN [s EXCEPT !.m = "int", !.int = Append(@, CharDigit[c])]
            ELSE IF c = "." THEN Loose(s, "dot0")
            ELSE IF c = "+" THEN Loose(s, "sign2")     \* "-+5": tolerated spelling
            ELSE Bad(s)
      [] s.m = "sign2" ->
            IF IsDigitChar(c) THEN [s EXCEPT !.m = "int", !.int = Append(@, CharDigit[c])]
            ELSE IF c = "." THEN Loose(s, "dot0")
            ELSE Bad(s)
      [] s.m = "int" ->
            IF IsDigitChar(c) THEN [s EXCEPT !.int = Append(@, CharDigit[c])]
            ELSE IF c = "." THEN Goto(s, "dot")
            ELSE IF c \in {"e", "E"} THEN Loose(s, "exp0")
            ELSE Bad(s)
      [] s.m \in {"dot", "dot0", "frac"} ->
            IF IsDigitChar(c) THEN [s EXCEPT !.m = "frac", !.frac = Append(@, CharDigit[c])]
            ELSE IF c \in {"e", "E"} /\ s.m # "dot0" THEN Loose(s, "exp0")
            ELSE Bad(s)
      [] s.m = "exp0" ->
            IF IsDigitChar(c) THEN [s EXCEPT !.m = "exp", !.exp = Append(@, CharDigit[c])]
            ELSE IF c = "-" THEN [s EXCEPT !.m = "exp1", !.eneg = TRUE]
            ELSE IF c = "+" THEN Goto(s, "exp1")
            ELSE Bad(s)
      [] s.m \in {"exp1", "exp"} ->
            IF IsDigitChar(c) THEN [s EXCEPT !.m = "exp", !.exp = Append(@, CharDigit[c])]
            ELSE Bad(s)
      [] OTHER -> Bad(s)

\* "5." is complete but not plain
Complete(s) == s.m \in {"int", "frac", "exp", "dot"}
ScanClass(s) == IF ~Complete(s) THEN "none"
                ELSE IF s.plain /\ s.m # "dot" THEN "plain" ELSE "lenient"

Scan(text) == FoldLeft(ScanStep, ScanInit, Chars(text))

\* the numeral denoted: exponent shifts the point
MaxExp == 9999
ExpTooBig(s) == Len(Norm(s.exp)) > 4
ScanNumeral(s) ==
    LET e == ToInt(Norm(s.exp))
        d == s.int \o s.frac
        k == Len(s.int)
    IN IF e = 0 THEN Numeral(s.int, s.frac)
       ELSE IF ~s.eneg
       THEN LET dd == d \o Zeros(Max2(0, e - Len(s.frac)))
            IN Numeral(SubSeq(dd, 1, k + e), SubSeq(dd, k + e + 1, Len(dd)))
       ELSE LET pad == Max2(0, e - k)
                dd == Zeros(pad) \o d
                kk == k + pad - e
            IN Numeral(SubSeq(dd, 1, kk), SubSeq(dd, kk + 1, Len(dd)))
=============================================================================
