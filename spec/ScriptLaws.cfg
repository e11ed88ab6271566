SPECIFICATION Spec
CONSTANT MaxLines = 3
INVARIANTS NothingLost Separate NoBlankCommands SameInAllModes StartupWins OneByOne Restart
CHECK_DEADLOCK FALSE
