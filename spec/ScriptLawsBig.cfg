SPECIFICATION Spec
CONSTANT MaxLines = 4
INVARIANTS NothingLost Separate NoBlankCommands SameInAllModes StartupWins OneByOne Restart
CHECK_DEADLOCK FALSE
