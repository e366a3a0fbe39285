INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Supported <- TextSupported
  HeaderLines <- TextHeaderLines
  LineKind <- TextLineKind
  RowOf <- TextRowOf
