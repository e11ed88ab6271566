SPECIFICATION Spec1
CHECK_DEADLOCK FALSE
