INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  LineKind <- IniLineKind
  SectionOf <- IniSectionOf
  KeyOf <- IniKeyOf
  ValueOf <- IniValueOf
