SPECIFICATION Spec
CONSTANTS
  None = 0
  MaxKeys = 2
  Slice = 1
  V = 1
INVARIANT KeyCount
PROPERTIES Monotone Local
CHECK_DEADLOCK FALSE
