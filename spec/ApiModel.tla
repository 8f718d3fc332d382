------------------------------ MODULE ApiModel -------------------------------
(***************************************************************************)
(* The client machine, explored exhaustively on a small universe, and used *)
(* as generator of behaviours (TLC -simulate) that the harness replays.    *)
(*  SameBinding   slots with equal binding answer every call alike, however *)
(*                they came to be                                          *)
(*  Untouched     a call changes at most the slot it targets               *)
(*  RefusedKeeps  a refused creation changes nothing                       *)
(***************************************************************************)
EXTENDS PluralApi, TLC, Json, IOUtils, Integers

CONSTANTS Depth, SlotSet
Plan == JsonDeserialize(IOEnv.PLAN)     \* types, locs, args: <<as, x>>

VARIABLES slots, last, hist
vars == <<slots, last, hist>>

Call(op, h, g, ty, loc, as, x) == [op |-> op, h |-> h, g |-> g, ty |-> ty, loc |-> loc, as |-> as, x |-> x]

\* symbolic answers: the model needs only to know which calls must agree
MCreate(ty, loc) == IF loc \in ToSet(Plan.unlisted) THEN "refused" ELSE "ok"
MSelect(ty, loc, as, x) == <<ty, loc, as, x>>
MLocale(ty, loc) == loc
MLocales(ty) == ty

Step(c) == /\ Enabled(slots, c)
           /\ slots' = After(slots, c)
           /\ last' = c

Calls ==
    {Call("create", h, 0, ty, loc, "", "") : h \in Slots, ty \in ToSet(Plan.types), loc \in ToSet(Plan.locs)}
    \cup {Call("clone", h, g, "", "", "", "") : h \in Slots, g \in Slots}
    \cup {Call(op, h, 0, "", "", "", "") : op \in {"drop", "locale"}, h \in Slots}
    \cup {Call("select", h, 0, "", "", a[1], a[2]) : h \in Slots, a \in ToSet(Plan.args)}
    \cup {Call("locales", 0, 0, ty, "", "", "") : ty \in ToSet(Plan.types)}

Init == slots = NoSlots /\ last = Call("none", 0, 0, "", "", "", "") /\ hist = <<>>
Next == \E c \in Calls : Step(c) /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars

SameBinding == \A s, t \in Slots : slots[s] = slots[t] /\ Bound(slots, s) =>
    \A a \in ToSet(Plan.args) :
        Result(slots, Call("select", s, 0, "", "", a[1], a[2])) = Result(slots, Call("select", t, 0, "", "", a[1], a[2]))
Target(c) == CASE c.op \in {"create", "drop"} -> {c.h} [] c.op = "clone" -> {c.g} [] OTHER -> {}
Untouched == [][\A s \in Slots : s \notin Target(last') => slots'[s] = slots[s]]_vars
RefusedKeeps == [][last'.op = "create" /\ MCreate(last'.ty, last'.loc) = "refused" => slots' = slots]_vars

(***************************************************************************)
(* Generator: the same steps, drawn at random, with the history kept.      *)
(***************************************************************************)
Pick(s) == RandomElement(s)
\* (bound by \E over a singleton: a LET would draw again at each use)
Draw(k) ==
    \E h \in {Pick(Slots)}, g \in {Pick(Slots)}, ty \in {Pick(ToSet(Plan.types))},
      loc \in {Pick(ToSet(Plan.locs))}, a \in {Pick(ToSet(Plan.args))} :
        LET c == CASE k <= 5 -> Call("create", h, 0, ty, loc, "", "")
                   [] k \in 6..7 -> Call("clone", h, g, "", "", "", "")
                   [] k = 8 -> Call("drop", h, 0, "", "", "", "")
                   [] k = 9 -> Call("locale", h, 0, "", "", "", "")
                   [] k = 10 /\ loc = "en" -> Call("locales", 0, 0, ty, "", "", "")
                   [] OTHER -> Call("select", h, 0, "", "", a[1], a[2])
        IN Step(c) /\ hist' = Append(hist, c)
GenNext == Len(hist) < Depth /\ \E k \in 1..24 : Draw(k)
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
=============================================================================
