SPECIFICATION Spec
CONSTANT Verdict <- ApiVerdict
CONSTANT Chunks = 64
CONSTANTS Slots <- SlotRange
          AnsCreate <- TCreate
          AnsSelect <- TSelect
          AnsLocale <- TLocale
          AnsLocales <- TLocales
CHECK_DEADLOCK FALSE
