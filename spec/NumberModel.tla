----------------------------- MODULE NumberModel -----------------------------
(***************************************************************************)
(* Model checking of the number specification itself: the scanner reads    *)
(* every text of up to MaxLen characters over a small alphabet (the same   *)
(* texts the harness gives to the implementation), one character per step. *)
(*  PlainIsGrammar   "plain" is exactly -?D+(.D+)? (stated declaratively)  *)
(*  NoneIsFinal      a text that went wrong stays wrong                    *)
(*  OperandLaws      the operands of a numeral relate as UTS #35 says      *)
(*  SignFree         the sign plays no role                                *)
(*  ExpShift         an exponent moves the point and nothing else          *)
(***************************************************************************)
EXTENDS NumberScanner, FiniteSets

CONSTANTS Alphabet, MaxLen

VARIABLES text, s
vars == <<text, s>>

Init == text = <<>> /\ s = ScanInit
Next == /\ Len(text) < MaxLen
        /\ \E c \in Alphabet : text' = Append(text, c) /\ s' = ScanStep(s, c)
Spec == Init /\ [][Next]_vars

DigitsOnly(cs) == cs # <<>> /\ \A k \in 1..Len(cs) : IsDigitChar(cs[k])
IsPlain(cs) ==
    LET u == IF cs # <<>> /\ cs[1] = "-" THEN Tail(cs) ELSE cs IN
    \/ DigitsOnly(u)
    \/ \E p \in 1..Len(u) : u[p] = "." /\ DigitsOnly(SubSeq(u, 1, p - 1)) /\ DigitsOnly(SubSeq(u, p + 1, Len(u)))

PlainIsGrammar == (ScanClass(s) = "plain") = IsPlain(text)
NoneIsFinal == [][s.m = "bad" => s'.m = "bad"]_vars

\* 10^k * a for canonical a
Shift(a, k) == IF a = <<>> THEN a ELSE a \o Zeros(k)
OperandLaws ==
    ScanClass(s) = "plain" =>
        LET x == Numeral(s.int, s.frac)
            o == Operands(x)
        IN /\ o.w <= o.v
           /\ o.f = Shift(o.t, o.v - o.w)                       \* f = t * 10^(v-w)
           /\ (o.w = 0) = (o.t = <<>>)
           /\ Len(o.f) <= o.v /\ Len(o.t) <= o.w
           /\ Scaled(x, o.v) = Add(Shift(o.int, o.v), o.f)      \* n * 10^v = i * 10^v + f
           /\ o.w > 0 => o.t[Len(o.t)] # 0
           /\ IsInteger(o) = (o.f = <<>>)
SignFree ==
    ScanClass(s) = "plain" /\ text[1] # "-" =>
        LET q == FoldLeft(ScanStep, ScanInit, <<"-">> \o text)
        IN ScanClass(q) = "plain" /\ q.int = s.int /\ q.frac = s.frac
ExpShift ==
    Complete(s) /\ ~ExpTooBig(s) =>
        LET e == ToInt(Norm(s.exp))
            x == ScanNumeral(s)
            m == Norm(s.int \o s.frac)
            k == 8 + 2 * MaxLen
        IN e <= 4 =>
           IF s.eneg THEN Shift(Norm(s.int \o s.frac \o Zeros(k - Len(s.frac))), 0) = Shift(Scaled(x, k), e)
                     ELSE Shift(Norm(s.int \o s.frac \o Zeros(k - Len(s.frac))), e) = Scaled(x, k)
=============================================================================
