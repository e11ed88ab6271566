SPECIFICATION Spec
CONSTANTS MaxRows = 2 MaxCols = 2 MaxStr = 1 Alphabet = {97, 34, 44, 10, 13, 9, 39}
INVARIANTS RoundTrip Parts Replaces OnePerRecord
CHECK_DEADLOCK FALSE
