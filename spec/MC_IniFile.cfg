INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  LineKind <- MLineKind
  SectionOf <- MName
  KeyOf <- MName
  ValueOf <- MName
  MaxLines = 5
INVARIANTS AllKeys AllSections NoneLost
