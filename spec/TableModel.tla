----------------------------- MODULE TableModel ------------------------------
(***************************************************************************)
(* The rule table of one type: built from a set of locale keys, searched   *)
(* by identifier.  A key is <<language, script, region>> ("" when absent). *)
(* The table is the sequence of keys sorted by language, script, region    *)
(* (absent first), the lookup a binary search, as in the implementation;   *)
(*  Exact     the table holds the keys of the set without root, each once  *)
(*  Finds     the search finds exactly the keys in the set                 *)
(* Every key set explored is printed for the conformance run.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

\* positions in the alphabetical order of the subtags used
Langs == <<"de", "den", "en">>
Scripts == <<"", "Cyrl", "Latn">>
Regions == <<"", "419", "US">>
Universe == {<<1, 1, 1>>, <<2, 1, 1>>, <<3, 1, 1>>, <<3, 1, 3>>, <<3, 3, 1>>, <<3, 2, 3>>, <<3, 1, 2>>}
MaxKeys == 3

Before(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]

VARIABLES keys, table
vars == <<keys, table>>
\* insertion where it belongs: the table is kept sorted whatever the order of arrival
Insert(t, k) ==
    LET p == Cardinality({j \in 1..Len(t) : Before(t[j], k)}) IN
    SubSeq(t, 1, p) \o <<k>> \o SubSeq(t, p + 1, Len(t))
Init == keys = {} /\ table = <<>>
Add(k) == /\ k \notin keys /\ Cardinality(keys) < MaxKeys
          /\ keys' = keys \cup {k} /\ table' = Insert(table, k)
Next == \E k \in Universe : Add(k)
Spec == Init /\ [][Next]_vars

RECURSIVE Search(_, _, _, _)
Search(t, k, lo, hi) ==
    IF lo > hi THEN 0
    ELSE LET m == (lo + hi) \div 2 IN
         IF t[m] = k THEN m ELSE IF Before(t[m], k) THEN Search(t, k, m + 1, hi) ELSE Search(t, k, lo, m - 1)

Exact == ToSet(table) = keys /\ Len(table) = Cardinality(keys)
Sorted == \A j \in 1..Len(table) - 1 : Before(table[j], table[j + 1])
Finds == \A k \in Universe : (Search(table, k, 1, Len(table)) # 0) <=> k \in keys

KeyText(k) == Langs[k[1]] \o (IF k[2] = 1 THEN "" ELSE "-" \o Scripts[k[2]]) \o (IF k[3] = 1 THEN "" ELSE "-" \o Regions[k[3]])
KeysText == FoldLeft(LAMBDA acc, k : acc \o KeyText(k) \o " ", "", table)
Printed == PrintT("KEYS " \o KeysText)
=============================================================================
