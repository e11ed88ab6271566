SPECIFICATION Spec
CONSTANTS MaxName = 3
MaxOther = 1
INVARIANTS Completable Unambiguous Judged
CHECK_DEADLOCK FALSE
