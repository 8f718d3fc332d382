-------------------------------- MODULE Cldr ---------------------------------
(***************************************************************************)
(* The CLDR plural rules as the specification reads them: the JSON data is *)
(* loaded as text and every rule text is read by RuleSyntax.  CLDR_CARD    *)
(* and CLDR_ORD name the files (CLDR 37 for the shipped library).          *)
(***************************************************************************)
EXTENDS RuleSyntax, RuleSemantics, Json, IOUtils, FiniteSets, TLC

RawCard == JsonDeserialize(IOEnv.CLDR_CARD)
RawOrd  == JsonDeserialize(IOEnv.CLDR_ORD)
RawCldrData == ([cardinal |-> RawCard.supplemental["plurals-type-cardinal"],
            ordinal  |-> RawOrd.supplemental["plurals-type-ordinal"]])

Types == {"cardinal", "ordinal"}
Locales(ty) == DOMAIN RawCldrData[ty] \ {"root"}

Prefix == "pluralRule-count-"
CatKey(c) == Prefix \o c
CatsOf(ty, loc) == {c \in Cats : CatKey(c) \in DOMAIN RawCldrData[ty][loc]}
RuleText(ty, loc, c) == RawCldrData[ty][loc][CatKey(c)]

\* type -> locale -> category -> parsed rule ("other" included, for its samples)
MakeParsed(k) == TLCEval([ty \in Types |-> TLCEval([loc \in Locales(ty) |->
              TLCEval([c \in CatsOf(ty, loc) \cup {"other"} |-> ParseText(RuleText(ty, loc, c))])])])
MakeConds(pr) == TLCEval([ty \in Types |-> TLCEval([loc \in Locales(ty) |->
              TLCEval([c \in CatsOf(ty, loc) |-> pr[ty][loc][c].rule.cond])])])
\* the same with the relations listed in known_findings.json marked
Findings == JsonDeserialize(IOEnv.KNOWN).findings
KnownKeys(k) == {<<f.type, f.locale, f.category, f.relation>> :
                 f \in {g \in ToSet(Findings) : g.property \in {"C01", "C02"}}}
MakeMarked(cs, keys) == TLCEval([ty \in Types |-> TLCEval([loc \in Locales(ty) |->
              TLCEval([c \in CatsOf(ty, loc) |->
                LET K(rel) == <<ty, loc, c, RelText(rel)>> \in keys IN Mark(cs[ty][loc][c], K)])])])
\* computed once, kept in TLC registers (TLC would re-evaluate a definition at each use)
ASSUME LET pr == MakeParsed(0) cs == MakeConds(pr) IN
       TLCSet(1, pr) /\ TLCSet(2, cs) /\ TLCSet(3, MakeMarked(cs, KnownKeys(0)))
MarkedConds(ty, loc) == TLCGet(3)[ty][loc]
ParsedRules(ty, loc) == TLCGet(1)[ty][loc]
CldrConds(ty, loc) == TLCGet(2)[ty][loc]

(***************************************************************************)
(* Signature: what the rules of a locale can distinguish about a number.   *)
(* One entry per expression: operand, modulus (<<>> = none) and the cut    *)
(* points of its value; the class of a value is the number of cut points   *)
(* at or below it.  Relations on n contribute the integer part with and    *)
(* without modulus, and whether a fraction is present.                     *)
(***************************************************************************)
RelsOf(conds) == UNION {UNION {{conds[c][a][b] : b \in 1..Len(conds[c][a])} : a \in 1..Len(conds[c])} : c \in DOMAIN conds}
CutsOf(rel) == UNION {{rel.l[k].lo, Add(rel.l[k].hi, <<1>>)} : k \in 1..Len(rel.l)} \ {<<>>}
SigRaw(conds) ==
    UNION {IF rel.o = "n"
           THEN {[o |-> "i", m |-> rel.m, c |-> CutsOf(rel)], [o |-> "i", m |-> <<>>, c |-> CutsOf(rel)],
                 [o |-> "t", m |-> <<>>, c |-> {<<1>>}], [o |-> "f", m |-> <<>>, c |-> {<<1>>}]}
           ELSE {[o |-> rel.o, m |-> rel.m, c |-> CutsOf(rel)]} : rel \in RelsOf(conds)}
\* merged per (operand, modulus)
SigRecipe(conds) ==
    LET raw == SigRaw(conds)
        keys == {<<e.o, e.m>> : e \in raw}
    IN {[o |-> k[1], m |-> k[2], c |-> UNION {e.c : e \in {x \in raw : x.o = k[1] /\ x.m = k[2]}}] : k \in keys}
SigClass(e, ops) ==
    LET base == OpVal(ops, e.o)
        x == IF e.m = <<>> THEN base ELSE Mod(base, e.m)
    IN Cardinality({c \in e.c : Leq(c, x)})
Sig(recipe, ops) == {<<e.o, e.m, SigClass(e, ops)>> : e \in recipe}
=============================================================================
