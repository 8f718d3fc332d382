SPECIFICATION Spec
CONSTANTS Slots <- SlotSet
          AnsCreate <- MCreate
          AnsSelect <- MSelect
          AnsLocale <- MLocale
          AnsLocales <- MLocales
          Depth = 0
          SlotSet = {1, 2, 3}
INVARIANT SameBinding
PROPERTIES Untouched RefusedKeeps
CHECK_DEADLOCK FALSE
