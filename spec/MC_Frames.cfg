INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Unit = 65
  Size = 12
INVARIANTS KeepsLength Inverts AlongIsAlong StarboardPositive
