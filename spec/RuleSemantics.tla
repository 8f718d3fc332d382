---------------------------- MODULE RuleSemantics ----------------------------
(***************************************************************************)
(* Truth of a plural rule condition on operands (UTS #35, "Relations").    *)
(* A relation is                                                           *)
(*   [o |-> operand, hm |-> has modulus, m |-> modulus, r |-> operator,    *)
(*    l |-> sequence of [lo, hi, rg]]         (rg: written as a range)     *)
(* with values as canonical digit sequences.  A condition is a sequence    *)
(* (or) of sequences (and) of relations.                                   *)
(***************************************************************************)
EXTENDS Numbers

CatOrder == <<"zero", "one", "two", "few", "many">>
Cats == {"zero", "one", "two", "few", "many"}

\* value of a non-n operand
OpVal(ops, o) == CASE o = "i" -> ops.int
                   [] o = "v" -> FromInt(ops.v)
                   [] o = "w" -> FromInt(ops.w)
                   [] o = "f" -> ops.f
                   [] o = "t" -> ops.t

\* an expression value: integer part, and whether a fraction remains
ExprVal(rel, ops) ==
    LET base == IF rel.o = "n" THEN ops.int ELSE OpVal(ops, rel.o)
        x    == IF rel.hm THEN Mod(base, rel.m) ELSE base
    IN [x |-> x, z |-> rel.o = "n" /\ ops.trim # <<>>]

Negated(r) == r \in {"NotIn", "IsNot", "NotEQ", "NotWithin"}
IsWithin(r) == r \in {"Within", "NotWithin"}

\* "in"/"="/"is" compare integers only; "within" compares decimals
ItemHolds(item, e, within) ==
    IF within THEN /\ Leq(item.lo, e.x)
                   /\ Less(e.x, item.hi) \/ (e.x = item.hi /\ ~e.z)
    ELSE ~e.z /\ Leq(item.lo, e.x) /\ Leq(e.x, item.hi)

RelHolds(rel, ops) ==
    LET e == ExprVal(rel, ops)
        pos == \E k \in 1..Len(rel.l) : ItemHolds(rel.l[k], e, IsWithin(rel.r))
    IN IF Negated(rel.r) THEN ~pos ELSE pos

CondHolds(cond, ops) ==
    \E a \in 1..Len(cond) : \A b \in 1..Len(cond[a]) : RelHolds(cond[a][b], ops)

\* rules: function from a subset of Cats to conditions
Matching(rules, ops) == {c \in DOMAIN rules : CondHolds(rules[c], ops)}
\* CLDR rules of one locale exclude each other; for other data any true rule may be chosen
Acceptable(rules, ops) ==
    LET s == Matching(rules, ops) IN IF s = {} THEN {"other"} ELSE s

(***************************************************************************)
(* Deviations of the code that are recorded as known findings              *)
(* (known_findings.json).  They are NOT part of the specified behaviour;   *)
(* they say precisely what the affected relations compute today, so that   *)
(* any other behaviour of the same relation is still a violation.          *)
(*   nmod      relation on "n % m": the fraction of n is ignored, and      *)
(*             ranges are compared with the integer part without modulus   *)
(*   nnotrange "n != lo..hi": false for every n with a fraction            *)
(*   notwithin "not within lo..hi" is lo > x and x > hi (for every item)   *)
(***************************************************************************)
DevKind(rel) ==
    IF rel.r = "NotWithin" THEN "notwithin"
    ELSE IF rel.o = "n" /\ rel.hm THEN "nmod"
    ELSE IF rel.o = "n" /\ Negated(rel.r) /\ \E k \in 1..Len(rel.l) : rel.l[k].rg THEN "nnotrange"
    ELSE "none"

DevHolds(rel, ops) ==
    LET kind == DevKind(rel) IN
    CASE kind = "nmod" /\ rel.r = "Within" ->
            LET x == Mod(ops.int, rel.m) IN
            \E k \in 1..Len(rel.l) : Leq(rel.l[k].lo, x) /\ Leq(x, rel.l[k].hi)
      [] kind = "nmod" ->
            LET x == Mod(ops.int, rel.m)
                In(it) == IF it.rg THEN Leq(it.lo, ops.int) /\ Leq(ops.int, it.hi) ELSE x = it.lo
                pos == \E k \in 1..Len(rel.l) : In(rel.l[k])
            IN IF Negated(rel.r) THEN ~pos ELSE pos
      [] kind = "nnotrange" ->
            /\ ops.f = <<>>
            /\ RelHolds(rel, ops)
      [] kind = "notwithin" ->
            LET e == ExprVal(rel, ops)
                frac == e.z /\ ~rel.hm
            IN \A k \in 1..Len(rel.l) :
                /\ Less(e.x, rel.l[k].lo)
                /\ Less(rel.l[k].hi, e.x) \/ (rel.l[k].hi = e.x /\ frac)
      [] OTHER -> RelHolds(rel, ops)

\* as above with the relations marked as known (field kd) replaced by what they do today
KnownRelHolds(rel, ops) == IF rel.kd THEN DevHolds(rel, ops) ELSE RelHolds(rel, ops)
DevMatching(rules, ops) ==
    {c \in DOMAIN rules :
        \E a \in 1..Len(rules[c]) : \A b \in 1..Len(rules[c][a]) : KnownRelHolds(rules[c][a][b], ops)}
DevAcceptable(rules, ops) ==
    LET s == DevMatching(rules, ops) IN IF s = {} THEN {"other"} ELSE s
\* mark the relations of one category's condition: K says whether the text of a relation is listed
Mark(cond, K(_)) ==
    [a \in 1..Len(cond) |-> [b \in 1..Len(cond[a]) |->
        LET rel == cond[a][b] IN
        [o |-> rel.o, hm |-> rel.hm, m |-> rel.m, r |-> rel.r, l |-> rel.l,
         kd |-> DevKind(rel) # "none" /\ K(rel)]]]

\* canonical text of a relation
OpText(r) == CASE r = "EQ" -> "=" [] r = "NotEQ" -> "!=" [] r = "In" -> "in" [] r = "NotIn" -> "not in"
               [] r = "Is" -> "is" [] r = "IsNot" -> "is not" [] r = "Within" -> "within"
               [] r = "NotWithin" -> "not within"
ItemText(it) == IF it.rg THEN Text(it.lo) \o ".." \o Text(it.hi) ELSE Text(it.lo)
ListText(l) == FoldLeft(Concat, ItemText(l[1]), [k \in 1..Len(l) - 1 |-> "," \o ItemText(l[k + 1])])
RelText(rel) == rel.o \o (IF rel.hm THEN " % " \o Text(rel.m) ELSE "") \o " " \o OpText(rel.r) \o " " \o ListText(rel.l)
=============================================================================
