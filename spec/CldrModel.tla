------------------------------ MODULE CldrModel ------------------------------
(***************************************************************************)
(* Model checking of the specification itself on the CLDR data: visits     *)
(* every locale of every type and checks                                   *)
(*  AllParsed       every rule text is a sentence of the grammar           *)
(*  SamplesAgree    CLDR's own samples of a category select that category  *)
(*  Exclusive       at most one rule of a locale is true of a number       *)
(*  SignatureSound  numbers with equal signature have equal outcome, also  *)
(*                  under the recorded deviations                          *)
(* and exports the signature recipes for the harness.                      *)
(***************************************************************************)
EXTENDS Cldr

VARIABLE at    \* <<type, locale>> being checked
vars == <<at>>

Todo == UNION {{<<ty, loc>> : loc \in Locales(ty)} : ty \in Types}

\* a grid of numbers exercising the moduli and constants that occur
Ints == {FromInt(k) : k \in 0..125} \cup {FromInt(k) : k \in {199, 200, 201, 202, 203, 210, 211, 219, 220, 300, 500, 700, 800, 900,
          999, 1000, 1001, 1002, 1003, 1100, 2000, 10000, 19999, 20000, 20001, 40000, 60000, 80000, 99999, 100000,
          100002, 101000, 120000, 1000000, 1000001, 1100000, 2000000, 10000000}}
           \cup {U64MAX, <<1,0,0,0,0,0,0,0,0,0,0,0,0>>, <<9,0,0,7,1,9,9,2,5,4,7,4,0,9,9,3>>}
Fracs == {<<>>, <<0>>, <<1>>, <<5>>, <<0,0>>, <<1,0>>, <<0,1>>, <<1,1>>, <<1,4>>, <<2,1>>, <<2,0,0>>}
SmallInts == {FromInt(k) : k \in 0..25} \cup {FromInt(k) : k \in {100, 101, 102, 103, 111, 1000000}}
Grid == ({Operands(Numeral(i, <<>>)) : i \in Ints}
        \cup {Operands(Numeral(i, f)) : i \in SmallInts, f \in Fracs})

ParsedOk(ty, loc) == \A c \in DOMAIN ParsedRules(ty, loc) : ParsedRules(ty, loc)[c].ok
AllParsed == Len(at) = 2 => ParsedOk(at[1], at[2])

\* the numerals of a sample list; the step of a range is one unit of its last digit
SampleNums(sl) ==
    UNION {LET s == sl.r[k]
               lo == Numeral(s.lo.int, s.lo.fr)
           IN IF ~s.rg THEN {lo}
              ELSE LET w == Len(s.lo.fr)
                       a == Norm(s.lo.int \o s.lo.fr)
                       b == Norm(s.hi.int \o s.hi.fr)
                       n == ToInt(Sub(b, a))
                       At(j) == LET x == Add(a, FromInt(j))
                                    p == Zeros(Max2(0, w + 1 - Len(x))) \o x
                                IN Numeral(SubSeq(p, 1, Len(p) - w), SubSeq(p, Len(p) - w + 1, Len(p)))
                   IN {At(j) : j \in 0..n} : k \in 1..Len(sl.r)}
SamplesOk(ty, loc) == \A c \in DOMAIN ParsedRules(ty, loc) :
    LET r == ParsedRules(ty, loc)[c].rule IN
    \A x \in SampleNums(r.si) \cup SampleNums(r.sd) :
        Acceptable(CldrConds(ty, loc), Operands(x)) = {c}
SamplesAgree == Len(at) = 2 => SamplesOk(at[1], at[2])

Exclusive == Len(at) = 2 => \A x \in Grid : Cardinality(Matching(CldrConds(at[1], at[2]), x)) <= 1

EveryRel(rel) == TRUE
SignatureSound == Len(at) = 2 =>
    LET conds == CldrConds(at[1], at[2])
        rec == SigRecipe(conds)
        all == [c \in DOMAIN conds |-> Mark(conds[c], EveryRel)]
        tab == {<<Sig(rec, x), Acceptable(conds, x), DevAcceptable(all, x)>> : x \in Grid}
    IN Cardinality(tab) = Cardinality({r[1] : r \in tab})

\* the locales are dealt to a few starting points so that TLC's workers share them
TodoSeq == SetToSeq(Todo)
Deal == 24
Init == at \in {<<k>> : k \in 1..Deal}
Next == Len(at) = 1 /\ \E j \in 1..Len(TodoSeq) : j % Deal = at[1] % Deal /\ at' = TodoSeq[j]
Spec == Init /\ [][Next]_vars

\* (an entry for n, without cut points, tells that the rules ask for the value itself)
Recipe(ty, loc) ==
    LET conds == CldrConds(ty, loc)
        rec == SetToSeq(SigRecipe(conds))
    IN [k \in 1..Len(rec) |-> [o |-> rec[k].o, m |-> Text(rec[k].m),
                            c |-> LET cs == SetToSeq(rec[k].c) IN [j \in 1..Len(cs) |-> Text(cs[j])]]]
       \o (IF \E rel \in RelsOf(conds) : rel.o = "n" THEN <<[o |-> "n", m |-> "0", c |-> <<>>]>> ELSE <<>>)
Export(file) == JsonSerialize(file, [ty \in Types |-> [loc \in Locales(ty) |-> Recipe(ty, loc)]])
\* (an assumption, not a definition: TLC evaluates constant definitions before the registers are set)
ASSUME Export(IOEnv.RECIPE_OUT)
=============================================================================
