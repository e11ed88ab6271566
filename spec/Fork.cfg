SPECIFICATION Spec
CONSTANTS N = 2 MaxSteps = 2 Cap = 1 Faults = TRUE
INVARIANTS Delivery Complete Nothing
PROPERTIES Terminates Independent
VIEW View
CHECK_DEADLOCK FALSE
