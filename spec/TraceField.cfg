INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
CONSTANTS
  KnownLayer = "C23-nyquist"
  KnownOrientation = "C26-orientation"
