------------------------------ MODULE Numbers -------------------------------
(***************************************************************************)
(* Decimal numerals and the CLDR plural operands n i v w f t (UTS #35,     *)
(* "Operands").  A numeral is the sequence of integer digits and the       *)
(* sequence of visible fraction digits, exactly as written; the sign plays *)
(* no role in any operand.                                                 *)
(***************************************************************************)
EXTENDS Digits

Numeral(int, frac) == [int |-> int, frac |-> frac]

\* n is the exact rational int.trim; i the integer part; v/w the number of
\* visible fraction digits with/without trailing zeros; f/t those digits read
\* as a number.
Operands(x) ==
    LET trim == TrimZeros(x.frac) IN
    [int  |-> Norm(x.int),   \* integer part of n, and operand i
     trim |-> trim,          \* fraction part of n
     v |-> Len(x.frac),
     w |-> Len(trim),
     f |-> Norm(x.frac),
     t |-> Norm(trim)]

IsInteger(ops) == ops.trim = <<>>

\* exact comparison of decimals [int, frac] (any digits): scale to integers
Scaled(x, k) == Norm(x.int \o x.frac \o Zeros(k - Len(x.frac)))

\* plain text  D+ | D+.D+  without sign to a numeral
DotPos(cs) == SelectInSeq(cs, LAMBDA c : c = ".")
PlainNumeral(s) ==
    LET cs == Chars(s) p == DotPos(cs) IN
    IF p = 0 THEN Numeral(DigitsOf(cs), <<>>)
    ELSE Numeral(DigitsOf(SubSeq(cs, 1, p - 1)), DigitsOf(SubSeq(cs, p + 1, Len(cs))))

(***************************************************************************)
(* x rounds to the binary64/binary32 number c with neighbours lo < c < hi  *)
(* iff x lies between the midpoints:  lo + c <= 2x <= c + hi.  The three   *)
(* floats are given by their exact decimal expansions; hi = "" means that  *)
(* c is the largest finite one.  Ties are accepted on either side.         *)
(***************************************************************************)
Max2(a, b) == IF a >= b THEN a ELSE b
\* x with its fraction cut to k digits, a 1 standing for the rest when that is
\* not zero: compares with every decimal of at most k fraction digits as x does
Sticky(x, k) ==
    LET fr == TrimZeros(x.frac) IN
    Numeral(x.int, IF Len(fr) <= k THEN fr ELSE Append(SubSeq(fr, 1, k), 1))
RoundsTo(xx, lo, c, hi) ==
    LET L == PlainNumeral(lo)
        C == PlainNumeral(c)
        H == PlainNumeral(hi)
        kf == Max2(Max2(Len(L.frac), Len(C.frac)), Len(H.frac))
        x == Sticky(xx, kf + 1)
        k == Max2(kf, Len(x.frac))
        xs == Scaled(x, k)
        x2 == Add(xs, xs)
        cs == Scaled(C, k)
    IN /\ Leq(Add(Scaled(L, k), cs), x2)
       /\ hi # "" => Leq(x2, Add(cs, Scaled(H, k)))

\* x is a decimal of at most k fraction digits strictly inside or on the
\* rounding interval of c: used for "no shorter decimal reads back as c".
FloorTo(x, k) == IF k >= Len(x.frac) THEN x ELSE Numeral(x.int, SubSeq(x.frac, 1, k))
\* the next decimal with k fraction digits above FloorTo(x, k)
NextTo(x, k) ==
    LET y == FloorTo(x, k)
        s == Add(Norm(y.int \o y.frac \o Zeros(k - Len(y.frac))), <<1>>)
        p == Zeros(Max2(0, k + 1 - Len(s))) \o s
    IN Numeral(SubSeq(p, 1, Len(p) - k), SubSeq(p, Len(p) - k + 1, Len(p)))

\* No decimal with fewer fraction digits than x reads back as the float c.
Shortest(x, lo, c, hi) ==
    Len(x.frac) > 0 =>
        LET C == PlainNumeral(c)
            k == Len(x.frac) - 1
        IN ~RoundsTo(FloorTo(C, k), lo, c, hi) /\ ~RoundsTo(NextTo(C, k), lo, c, hi)
=============================================================================
