----------------------------- MODULE LayoutModel -----------------------------
(***************************************************************************)
(* C20: the same data written in another way.  A document is a sequence of *)
(* members <<type, key, category, condition, sample>> with the spelling of *)
(* each key, members nobody uses, a layout and the number of files it is   *)
(* spread over.  Every step rewrites it; what is read from it (Facts: the  *)
(* condition of each type, identifier and category, and the version) must  *)
(* not change.  Reading is a machine of its own: the members are taken one *)
(* after the other, keys are put in canonical spelling, samples cut off.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

CONSTANTS MaxSteps, Emit

Ids == {"en", "pt-PT", "sr-Latn"}
Spellings(id) == CASE id = "en" -> {"en", "EN", "En"}
                   [] id = "pt-PT" -> {"pt-PT", "pt_pt", "PT-pt"}
                   [] id = "sr-Latn" -> {"sr-Latn", "sr_latn", "SR-LATN"}
Canon(s) == CHOOSE id \in Ids : s \in Spellings(id)
Samples == {"", "@integer 1", "@integer 1 @decimal 1.0"}
Source == << <<"cardinal", "en", "one", "i = 1", "">>,
             <<"cardinal", "pt-PT", "one", "i = 1", "@integer 1">>,
             <<"cardinal", "en", "other", "", "@integer 1">>,
             <<"ordinal", "sr-Latn", "few", "n = 3", "">> >>

VARIABLES members, unused, layout, files, steps
vars == <<members, unused, layout, files, steps>>

Init == members = Source /\ unused = {} /\ layout = "compact" /\ files = 1 /\ steps = <<>>
Did(s) == Len(steps) < MaxSteps /\ steps' = Append(steps, s)
Reorder == /\ Did("reorder")
           /\ \E i \in 1..(Len(members) - 1) :
                members' = [members EXCEPT ![i] = members[i + 1], ![i + 1] = members[i]]
           /\ UNCHANGED <<unused, layout, files>>
Resample == /\ Did("resample")
            /\ \E i \in 1..Len(members), s \in Samples : members' = [members EXCEPT ![i][5] = s]
            /\ UNCHANGED <<unused, layout, files>>
\* a key is spelled alike in all members of its type: it is one JSON member
Respell == /\ Did("respell")
           /\ \E id \in Ids, ty \in {"cardinal", "ordinal"} : \E s \in Spellings(id) :
                members' = [i \in 1..Len(members) |->
                    IF members[i][1] = ty /\ Canon(members[i][2]) = id THEN [members[i] EXCEPT ![2] = s] ELSE members[i]]
           /\ UNCHANGED <<unused, layout, files>>
Unused == /\ Did("unused")
          /\ \E p \in {"top", "supplemental", "version"} : unused' = unused \cup {p}
          /\ UNCHANGED <<members, layout, files>>
Layout(l) == Did(l) /\ layout' = l /\ UNCHANGED <<members, unused, files>>
Split == Did("split") /\ files' = 2 /\ UNCHANGED <<members, unused, layout>>
Next == Reorder \/ Resample \/ Respell \/ Unused \/ Layout("escape") \/ Layout("indent") \/ Layout("blank") \/ Split
Spec == Init /\ [][Next]_vars

\* reading: a table from <<type, identifier, category>> to the condition
ReadOne(table, m) == [k \in DOMAIN table \cup {<<m[1], Canon(m[2]), m[3]>>} |->
                        IF k = <<m[1], Canon(m[2]), m[3]>> THEN m[4] ELSE table[k]]
Facts(ms) == FoldLeft(ReadOne, <<>>, ms)
Unchanged == Facts(members) = Facts(Source)
OneEach == \A i, j \in 1..Len(members) : i # j =>
    <<members[i][1], Canon(members[i][2]), members[i][3]>> # <<members[j][1], Canon(members[j][2]), members[j][3]>>
Printed == Emit /\ steps # <<>> => PrintT("STEPS" \o FoldLeft(LAMBDA acc, s : acc \o " " \o s, "", steps))
View == <<steps, Facts(members)>>
=============================================================================
