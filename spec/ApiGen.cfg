SPECIFICATION GenSpec
CONSTANTS Slots <- SlotSet
          AnsCreate <- MCreate
          AnsSelect <- MSelect
          AnsLocale <- MLocale
          AnsLocales <- MLocales
          Depth = 60
          SlotSet = {1, 2, 3, 4, 5}
INVARIANT Emit
CHECK_DEADLOCK FALSE
