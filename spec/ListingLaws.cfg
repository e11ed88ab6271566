SPECIFICATION Spec
CONSTANTS
  Slots <- SlotsDef
  Targets <- TargetsDef
  ArgTexts = {"a", "*", "b/../a", "a/b", "?/[!a]"}
  MaxArgs = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
