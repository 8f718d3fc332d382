------------------------------- MODULE ApiTrace ------------------------------
(***************************************************************************)
(* C09: recorded histories.  An event of the trace is one history segment: *)
(* pre, the bindings of the slots it starts with, and ev, the calls in the *)
(* order the client made them, each with its result r.  TABLE holds what   *)
(* the same calls return as the first call of a fresh process; the segment *)
(* must be a behaviour of PluralApi with those answers.                    *)
(***************************************************************************)
EXTENDS PluralApi, TraceJudge

ASSUME TLCSet(1, JsonDeserialize(IOEnv.TABLE))
Table == TLCGet(1)

TCreate(ty, loc) == Table.create[ty][loc]
TSelect(ty, loc, as, x) == Table.select[ty][loc][as][x]
TLocale(ty, loc) == Table.locale[ty][loc]
TLocales(ty) == Table.locales[ty]

SlotRange == 1..8
PreSlots(e) == [s \in Slots |-> IF s <= Len(e.pre) THEN [ty |-> e.pre[s][1], loc |-> e.pre[s][2]] ELSE Empty]

StepOne(acc, c) ==
    IF acc.bad # "" THEN acc
    ELSE IF ~Enabled(acc.slots, c) THEN [acc EXCEPT !.bad = "call on an empty slot"]
    ELSE IF Result(acc.slots, c) # c.r THEN [acc EXCEPT !.bad = c.op]
    ELSE [slots |-> After(acc.slots, c), bad |-> ""]

ApiVerdict(e) ==
    LET z == FoldLeft(StepOne, [slots |-> PreSlots(e), bad |-> ""], e.ev) IN
    IF z.bad = "" THEN "ok" ELSE "result depends on the history: " \o z.bad
=============================================================================
