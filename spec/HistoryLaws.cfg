SPECIFICATION Spec
CONSTANT MaxTyped = 3
INVARIANTS OnlyGrows Verbatim RecallIsTyping RunIsRecall NoSuchNumber Complete Persistent
CHECK_DEADLOCK FALSE
