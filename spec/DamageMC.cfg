SPECIFICATION MCSpec
CONSTANTS Names = {"v", "w"}
          Depth = 7
          MCKinds = {"c", "s", "m"}
VIEW MCView
INVARIANT TypeOK NoneLeft
PROPERTY Untouched Reported Alive
CHECK_DEADLOCK FALSE
