------------------------------ MODULE GenModel -------------------------------
(***************************************************************************)
(* Rule sets for the generator: a locale's rules are written down one      *)
(* relation at a time; a relation is joined by "and", by "or", or starts   *)
(* the rule of a further category.  Relation number k is about the residue *)
(* of i modulo the k-th of several primes, so that by the Chinese          *)
(* remainder theorem every combination of truth values is met by some      *)
(* number.  Invariants (of the specification):                             *)
(*  Reads     the text of every rule is read back as its structure         *)
(*  Boolean   the condition holds iff the and/or structure of its residue  *)
(*            predicates does                                              *)
(*  Decided   some category is acceptable                                  *)
(* Every rule set reached is printed for the conformance run.              *)
(***************************************************************************)
EXTENDS RuleSyntax, RuleSemantics, TLC, FiniteSets

CONSTANTS MaxRels, MaxCats, UseCats, Shapes

Primes == <<5, 7, 11, 13, 17, 19, 23>>
ShapeText(sh) ==
    CASE sh = "eq" -> "= 1" [] sh = "ne" -> "!= 1"
      [] sh = "eqlist" -> "= 1,3" [] sh = "nelist" -> "!= 1,3"
      [] sh = "eqrange" -> "= 1..3" [] sh = "nerange" -> "!= 1..3"
      [] sh = "eqmix" -> "= 0,2..3" [] sh = "nemix" -> "!= 2..3,0"
      [] sh = "in" -> "in 1,3..4" [] sh = "notin" -> "not in 1,3..4"
      [] sh = "is" -> "is 2" [] sh = "isnot" -> "is not 2"
      [] sh = "within" -> "within 2..4"
ShapeHolds(sh, x) ==
    CASE sh = "eq" -> x = 1 [] sh = "ne" -> x # 1
      [] sh = "eqlist" -> x \in {1, 3} [] sh = "nelist" -> x \notin {1, 3}
      [] sh = "eqrange" -> x \in 1..3 [] sh = "nerange" -> x \notin 1..3
      [] sh = "eqmix" -> x \in {0, 2, 3} [] sh = "nemix" -> x \notin {0, 2, 3}
      [] sh = "in" -> x \in {1, 3, 4} [] sh = "notin" -> x \notin {1, 3, 4}
      [] sh = "is" -> x = 2 [] sh = "isnot" -> x # 2
      [] sh = "within" -> x \in 2..4

\* rules: sequence of [c |-> category, b |-> sequence (or) of sequences (and) of <<k, shape>>]
VARIABLES rules, n
vars == <<rules, n>>

Init == rules = <<>> /\ n = 0
Cur == Last(rules)
CatPos(c) == CHOOSE k \in 1..5 : CatOrder[k] = c
NextCat == \E c \in UseCats, sh \in Shapes :
    /\ Len(rules) < MaxCats
    /\ IF rules = <<>> THEN TRUE ELSE CatPos(c) > CatPos(Cur.c)
    /\ rules' = Append(rules, [c |-> c, b |-> << <<[k |-> n + 1, s |-> sh]>> >>])
And == \E sh \in Shapes :
    /\ rules # <<>>
    /\ rules' = [rules EXCEPT ![Len(rules)].b[Len(Cur.b)] = Append(@, [k |-> n + 1, s |-> sh])]
Or == \E sh \in Shapes :
    /\ rules # <<>>
    /\ rules' = [rules EXCEPT ![Len(rules)].b = Append(@, <<[k |-> n + 1, s |-> sh]>>)]
Next == n < MaxRels /\ n' = n + 1 /\ (NextCat \/ And \/ Or)
Spec == Init /\ [][Next]_vars

AtomText(a) == "i % " \o ToString(Primes[a.k]) \o " " \o ShapeText(a.s)
JoinBy(F(_), m, sep) == LET G(acc, k) == IF k = 1 THEN F(1) ELSE acc \o sep \o F(k) IN FoldLeft(G, "", [k \in 1..m |-> k])
AndText(x) == LET F(k) == AtomText(x[k]) IN JoinBy(F, Len(x), " and ")
CondText(b) == LET F(k) == AndText(b[k]) IN JoinBy(F, Len(b), " or ")
SetText == LET F(k) == rules[k].c \o ":" \o CondText(rules[k].b) IN JoinBy(F, Len(rules), ";")

Conds == [c \in {rules[k].c : k \in 1..Len(rules)} |->
            LET k == CHOOSE j \in 1..Len(rules) : rules[j].c = c IN ParseText(CondText(rules[k].b)).rule.cond]
Reads == \A k \in 1..Len(rules) :
    LET p == ParseText(CondText(rules[k].b)) IN
    /\ p.ok
    /\ Len(p.rule.cond) = Len(rules[k].b)
    /\ \A a \in 1..Len(rules[k].b) : Len(p.rule.cond[a]) = Len(rules[k].b[a])
Probes == {0, 1, 2, 3, 4, 8, 36, 57, 386, 1002, 5006}
Boolean == \A x \in Probes : \A k \in 1..Len(rules) :
    CondHolds(Conds[rules[k].c], Operands([int |-> FromInt(x), frac |-> <<>>]))
    <=> \E a \in 1..Len(rules[k].b) : \A b \in 1..Len(rules[k].b[a]) :
            LET at == rules[k].b[a][b] IN ShapeHolds(at.s, x % Primes[at.k])
Decided == \A x \in Probes : Acceptable(Conds, Operands([int |-> FromInt(x), frac |-> <<>>])) # {}
Printed == PrintT("RULESET " \o SetText)
=============================================================================
