SPECIFICATION MSpec
CHECK_DEADLOCK FALSE
CONSTANT MaxLen = 4
INVARIANTS DotAgrees InRange Height Lifo
PROPERTY Separate
