---------------------------- MODULE OperandTrace -----------------------------
(***************************************************************************)
(* C03-C06: recorded conversions to plural operands.  Fields of an event:  *)
(*   k   "text" | "int" | "float"                                          *)
(*   x   the text given (k = "text"), the absolute value (k = "int")       *)
(*   min 1: the integer is the minimum of a 64 bit signed type             *)
(*   fin 1: the float is finite; xl, x, xh: its absolute value and its two *)
(*       neighbours of the same type, exactly                              *)
(*   ok  1 converted, 0 refused, 2 panicked                                *)
(*   and when converted i v w f t, and n with its neighbour doubles        *)
(*   (nl, n, nh; ns = 0 when n is negative or not finite)                  *)
(*   sel what select says about the same argument: 1 category, 0 error,    *)
(*       2 panic, 9 not asked                                              *)
(* CLASS restricts judgement to the property being checked: "plain" (C03), *)
(* "int" (C04), "float" (C05), "other" (C06).                              *)
(***************************************************************************)
EXTENDS NumberScanner, TraceJudge

SameOps(e, x) ==
    LET o == Operands(x) IN
    /\ FromText(e.i) = o.int
    /\ e.v = o.v /\ e.w = o.w
    /\ FromText(e.f) = o.f /\ FromText(e.t) = o.t
NIs(e, x) == e.ns = 1 /\ RoundsTo(x, e.nl, e.n, e.nh)

Holdable(x) == FitsU64(x.int) /\ FitsU64(x.frac)
PlainVerdict(e, x) ==
    IF e.ok = 2 THEN "panic"
    ELSE IF Holdable(x)
    THEN IF e.ok = 0 THEN "refused a numeral that fits"
         ELSE IF ~SameOps(e, x) THEN "operands"
         ELSE IF ~NIs(e, x) THEN "n" ELSE "ok"
    ELSE IF e.ok = 0 THEN "ok"
    ELSE "operands of a numeral that does not fit"

\* other spellings: refused, or operands whose value is the value written
\* (up to the double n: both the text and the operands read as n)
ValueOf(e) ==
    LET f == FromText(e.f) IN Numeral(FromText(e.i), Zeros(e.v - Len(f)) \o f)
Consistent(e) ==
    LET f == FromText(e.f) t == FromText(e.t) IN
    /\ e.v < 400 /\ Len(f) <= e.v
    /\ LET fr == Zeros(e.v - Len(f)) \o f IN
       /\ e.w = Len(TrimZeros(fr)) /\ t = Norm(TrimZeros(fr))
LenientVerdict(e, s) ==
    IF e.ok = 2 THEN "panic"
    ELSE IF e.ok = 0 THEN "ok"
    ELSE IF ExpTooBig(s) THEN
         \* the value is zero, or beyond every double on either side
         IF Norm(s.int \o s.frac) = <<>> \/ s.eneg
         THEN IF e.ns = 1 /\ e.n = "0" /\ SameOps(e, Numeral(<<>>, <<>>)) THEN "ok" ELSE "value"
         ELSE "value"
    ELSE LET x == ScanNumeral(s) IN
         IF ~NIs(e, x) THEN "n"
         ELSE IF Consistent(e) /\ NIs(e, ValueOf(e)) THEN "ok"
         ELSE "value"

SelectAgrees(e) == e.sel = 9 \/ e.sel = e.ok

TextVerdict(e, class) ==
    LET s == Scan(e.x)
        c == ScanClass(s)
    IN IF class = "plain" THEN
           IF c # "plain" THEN "ok" ELSE PlainVerdict(e, Numeral(s.int, s.frac))
       ELSE IF e.ok = 2 \/ e.sel = 2 THEN "panic"
       ELSE IF ~SelectAgrees(e) THEN "select and conversion disagree"
       ELSE IF c = "none" THEN IF e.ok = 0 THEN "ok" ELSE "converted text that is no number"
       ELSE IF c = "lenient" THEN LenientVerdict(e, s)
       ELSE "ok"

IntVerdict(e) ==
    IF e.ok = 2 THEN "panic"
    ELSE IF e.ok = 0 THEN IF e.min = 1 THEN "ok" ELSE "refused"
    ELSE LET x == PlainNumeral(e.x) IN
         IF ~NIs(e, x) THEN "n" ELSE IF ~SameOps(e, x) THEN "operands" ELSE "ok"

FloatVerdict(e) ==
    IF e.ok = 2 THEN "panic"
    ELSE IF e.fin = 0 THEN IF e.ok = 0 THEN "ok" ELSE "converted a non-finite float"
    ELSE LET X == PlainNumeral(e.x) IN
    \* a float whose integer part needs more than 64 bits may be refused, but not misread
    IF e.ok = 0 THEN IF FitsU64(X.int) THEN "refused a float that fits" ELSE "ok"
    ELSE IF ~Consistent(e) THEN "operands"
    ELSE LET y == ValueOf(e) IN
         IF ~RoundsTo(y, e.xl, e.x, e.xh) THEN "does not read back as the float"
         ELSE IF e.v # e.w THEN "trailing zeros"
         ELSE IF ~Shortest(y, e.xl, e.x, e.xh) THEN "not the fewest fraction digits"
         ELSE IF ~NIs(e, y) THEN "n" ELSE "ok"

\* C06 asks of integers and floats only that select agrees with the conversion
OpVerdict(e) ==
    LET class == IOEnv.CLASS IN
    CASE e.k = "text" -> TextVerdict(e, class)
      [] class = "other" -> IF SelectAgrees(e) THEN "ok" ELSE "select and conversion disagree"
      [] e.k = "int" -> IntVerdict(e)
      [] e.k = "float" -> FloatVerdict(e)
=============================================================================
