SPECIFICATION TSpec
CONSTANTS
  Words <- WordsTable
  Exprs <- ExprsTable
CHECK_DEADLOCK FALSE
