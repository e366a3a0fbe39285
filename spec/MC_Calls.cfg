INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Impl = {"pure", "once", "shared", "last", "alias", "sticky", "first", "mutates", "late"}
  MaxLen = 5
CONSTRAINT Useful
INVARIANTS PureIsPure Emit
