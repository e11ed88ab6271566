SPECIFICATION Spec
CONSTANTS
  Slots <- BigSlots
  Targets <- BigTargets
  ArgTexts = {"a", "*", "b/../a", "a/b", "?/[!a]"}
  MaxArgs = 2
INVARIANT Laws
CHECK_DEADLOCK FALSE
