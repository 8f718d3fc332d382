------------------------------ MODULE PluralApi ------------------------------
(***************************************************************************)
(* The library as a client sees it (C09).  A client holds instances in     *)
(* numbered slots; a slot is empty or bound to the rule type and locale    *)
(* the instance was created with.  Every call has one specified result,    *)
(* given by Answer from the call's arguments and the slot's binding only:  *)
(* that the result has no other inputs is the property.                    *)
(* A call is [op, h, g, ty, loc, as, x]: create (h, ty, loc), clone (h to  *)
(* g), drop (h), select (h, argument x given as Rust type "as"), locale    *)
(* (h), locales (ty).                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

CONSTANTS Slots,
          AnsCreate(_, _),          \* type, locale -> "ok" or "refused"
          AnsSelect(_, _, _, _),    \* type, locale, argument type, argument -> category or "error"
          AnsLocale(_, _),          \* type, locale -> identifier
          AnsLocales(_)             \* type -> list

Empty == [ty |-> "", loc |-> ""]
NoSlots == [s \in Slots |-> Empty]
Bound(slots, s) == slots[s].ty # ""

Enabled(slots, c) ==
    CASE c.op \in {"create", "locales"} -> TRUE
      [] OTHER -> Bound(slots, c.h)

Result(slots, c) ==
    CASE c.op = "create" -> AnsCreate(c.ty, c.loc)
      [] c.op = "select" -> AnsSelect(slots[c.h].ty, slots[c.h].loc, c.as, c.x)
      [] c.op = "locale" -> AnsLocale(slots[c.h].ty, slots[c.h].loc)
      [] c.op = "locales" -> AnsLocales(c.ty)
      [] OTHER -> "ok"

After(slots, c) ==
    CASE c.op = "create" /\ AnsCreate(c.ty, c.loc) = "ok" -> [slots EXCEPT ![c.h] = [ty |-> c.ty, loc |-> c.loc]]
      [] c.op = "clone" -> [slots EXCEPT ![c.g] = slots[c.h]]
      [] c.op = "drop" -> [slots EXCEPT ![c.h] = Empty]
      [] OTHER -> slots
=============================================================================
