------------------------------- MODULE Digits -------------------------------
(***************************************************************************)
(* Exact natural numbers of any size as sequences of decimal digits, most  *)
(* significant first.  A number is canonical when it has no leading zero;  *)
(* zero is <<>>.  TLC integers are 32 bit, the implementation works with   *)
(* u64 and f64: everything numeric in this specification goes through this *)
(* module, so nothing here can wrap, round or saturate.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

CharDigit == [c \in {"0","1","2","3","4","5","6","7","8","9"} |->
    CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
      [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
DigitChar == <<"0","1","2","3","4","5","6","7","8","9">>

IsDigitChar(c) == c \in DOMAIN CharDigit

\* a string as the sequence of its characters (one-character strings)
Chars(s) == [k \in 1..Len(s) |-> SubSeq(s, k, k)]
DigitsOf(cs) == [k \in 1..Len(cs) |-> CharDigit[cs[k]]]

Nonzero(x) == x # 0
Norm(d) == IF d = <<>> THEN d ELSE IF d[1] # 0 THEN d ELSE
    LET k == SelectInSeq(d, Nonzero) IN
    IF k = 0 THEN <<>> ELSE SubSeq(d, k, Len(d))
\* drop trailing zeros
TrimZeros(d) == IF d = <<>> THEN d ELSE
    LET k == SelectLastInSeq(d, Nonzero) IN SubSeq(d, 1, k)

\* canonical text
Concat(a, b) == a \o b
Text(d) == IF d = <<>> THEN "0"
           ELSE FoldLeft(Concat, "", [k \in 1..Len(d) |-> DigitChar[d[k] + 1]])
FromText(s) == Norm(DigitsOf(Chars(s)))

Zeros(k) == [j \in 1..k |-> 0]

RECURSIVE FirstDiff(_, _, _)
FirstDiff(a, b, k) == IF k > Len(a) THEN 0
                      ELSE IF a[k] # b[k] THEN k ELSE FirstDiff(a, b, k + 1)

\* a < b on canonical numbers
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b)
              ELSE LET k == FirstDiff(a, b, 1) IN k # 0 /\ a[k] < b[k]
Leq(a, b) == ~Less(b, a)

RECURSIVE AddFrom(_, _, _, _, _)
AddFrom(a, b, k, carry, acc) ==
    \* k counts positions from the right
    IF k > Len(a) /\ k > Len(b) THEN IF carry = 0 THEN acc ELSE <<carry>> \o acc
    ELSE LET x == (IF k <= Len(a) THEN a[Len(a) - k + 1] ELSE 0)
                  + (IF k <= Len(b) THEN b[Len(b) - k + 1] ELSE 0) + carry
         IN AddFrom(a, b, k + 1, x \div 10, <<x % 10>> \o acc)
Add(a, b) == Norm(AddFrom(a, b, 1, 0, <<>>))

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, k, borrow, acc) ==
    IF k > Len(a) THEN acc
    ELSE LET y == (IF k <= Len(b) THEN b[Len(b) - k + 1] ELSE 0) + borrow
             x == a[Len(a) - k + 1]
         IN IF x >= y THEN SubFrom(a, b, k + 1, 0, <<x - y>> \o acc)
            ELSE SubFrom(a, b, k + 1, 1, <<x + 10 - y>> \o acc)
\* a - b for a >= b
Sub(a, b) == Norm(SubFrom(a, b, 1, 0, <<>>))

\* value of a canonical number of at most 9 digits as a TLC integer
HornerInt(acc, x) == acc * 10 + x
ToInt(d) == FoldLeft(HornerInt, 0, d)

RECURSIVE FromInt(_)
FromInt(x) == IF x = 0 THEN <<>> ELSE Append(FromInt(x \div 10), x % 10)

RECURSIVE Reduce(_, _)
Reduce(x, m) == IF Less(x, m) THEN x ELSE Reduce(Sub(x, m), m)

\* a mod m, m > 0: Horner's scheme; small moduli in TLC integers
Mod(a, m) ==
    IF Len(m) <= 8
    THEN LET mi == ToInt(m)
             H(acc, x) == (acc * 10 + x) % mi
         IN FromInt(FoldLeft(H, 0, a))
    ELSE LET H(acc, x) == Reduce(Norm(Append(acc, x)), m)
         IN FoldLeft(H, <<>>, a)

U64MAX == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
FitsU64(d) == Leq(Norm(d), U64MAX)
=============================================================================
