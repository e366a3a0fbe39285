INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  Supported <- MSupported
  HeaderLines <- MHeaderLines
  LineKind <- MLineKind
  RowOf <- MRowOf
  MaxFiles = 2
  MaxLines = 3
  Headers = {0, 2}
  Emit = TRUE
INVARIANTS CountRows FilesInOrder SentinelRule Prefix
