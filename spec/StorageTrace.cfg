SPECIFICATION Spec2
CHECK_DEADLOCK FALSE
