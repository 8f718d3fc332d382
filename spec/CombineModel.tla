---------------------------- MODULE CombineModel -----------------------------
(***************************************************************************)
(* C16: data files are combined one after the other.  A file is            *)
(* <<version, kind>>; kinds: "c", "C" two different cardinal tables, "o"   *)
(* an ordinal table, "b" both, "n" neither, "e" an empty cardinal table,   *)
(* "x" not data at all.  A version is a whole number of at most 64 bits;   *)
(* files that state any other do not combine, not even one alone.          *)
(* The machine is the fold; Outcome is what the user relies on, stated     *)
(* without the machine.  Invariants: they agree (Agrees), and the outcome  *)
(* does not depend on the order (Permutes).                                *)
(***************************************************************************)
EXTENDS Digits, FiniteSets, TLC

CONSTANTS Versions, Kinds, MaxFiles, Emit

Files == Versions \X Kinds
TypesOf(f) == CASE f[2] \in {"c", "C", "e"} -> {"cardinal"} [] f[2] = "o" -> {"ordinal"}
                [] f[2] = "b" -> {"cardinal", "ordinal"} [] OTHER -> {}

Whole(v) == LET cs == Chars(v) IN
    /\ cs # <<>> /\ \A k \in 1..Len(cs) : IsDigitChar(cs[k])
    /\ FitsU64(DigitsOf(cs))

VARIABLES seq, version, types, refused
vars == <<seq, version, types, refused>>
Init == seq = <<>> /\ version = "" /\ types = {} /\ refused = FALSE
Read(f) ==
    /\ Len(seq) < MaxFiles
    /\ seq' = Append(seq, f)
    /\ IF refused \/ f[2] = "x" \/ ~Whole(f[1]) \/ (version # "" /\ version # f[1]) \/ TypesOf(f) \cap types # {}
       THEN refused' = TRUE /\ UNCHANGED <<version, types>>
       ELSE refused' = FALSE /\ version' = f[1] /\ types' = types \cup TypesOf(f)
Next == \E f \in Files : Read(f)
Spec == Init /\ [][Next]_vars

\* the property
Provides(s, ty) == {k \in 1..Len(s) : ty \in TypesOf(s[k])}
Combines(s) ==
    /\ \A k \in 1..Len(s) : s[k][2] # "x"
    /\ \A k \in 1..Len(s) : Whole(s[k][1])
    /\ Cardinality({s[k][1] : k \in 1..Len(s)}) = 1
    /\ \A ty \in {"cardinal", "ordinal"} : Cardinality(Provides(s, ty)) <= 1
    /\ \E ty \in {"cardinal", "ordinal"} : Provides(s, ty) # {}
Outcome(s) == IF Combines(s)
              THEN [ok |-> 1, version |-> s[1][1], card |-> Cardinality(Provides(s, "cardinal")), ord |-> Cardinality(Provides(s, "ordinal"))]
              ELSE [ok |-> 0, version |-> "", card |-> 0, ord |-> 0]

Agrees == (~refused /\ types # {}) <=> Combines(seq)
Result == Agrees /\ (Combines(seq) => Outcome(seq) = [ok |-> 1, version |-> version,
    card |-> IF "cardinal" \in types THEN 1 ELSE 0, ord |-> IF "ordinal" \in types THEN 1 ELSE 0])
Permutes == Outcome(seq) = Outcome(Reverse(seq))
    /\ (Len(seq) = 3 => Outcome(seq) = Outcome(<<seq[2], seq[3], seq[1]>>))
Printed == Emit => PrintT("FILES " \o FoldLeft(LAMBDA acc, f : acc \o f[1] \o ":" \o f[2] \o " ", "", seq))
=============================================================================
