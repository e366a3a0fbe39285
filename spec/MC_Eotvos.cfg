INIT MInit
NEXT MNext
CHECK_DEADLOCK FALSE
INVARIANTS Rest Equator Heave Even
