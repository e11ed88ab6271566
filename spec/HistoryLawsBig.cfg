SPECIFICATION Spec
CONSTANT MaxTyped = 4
INVARIANTS OnlyGrows Verbatim RecallIsTyping RunIsRecall NoSuchNumber Complete Persistent
CHECK_DEADLOCK FALSE
