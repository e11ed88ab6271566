SPECIFICATION Spec
CONSTANTS N = 3 MaxSteps = 3 Cap = 2 Faults = TRUE
INVARIANTS Delivery Complete Nothing
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
