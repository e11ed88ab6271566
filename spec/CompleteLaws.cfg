SPECIFICATION Spec
CONSTANTS MaxName = 2
MaxOther = 1
INVARIANTS Completable Unambiguous Judged
CHECK_DEADLOCK FALSE
