INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
CONSTANTS
  LatStep = 1
  HeightStep = 500
  MaxHeight = 9000
INVARIANTS Zero Ends EvenLat
PROPERTIES Grows Falls
