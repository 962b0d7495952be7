SPECIFICATION Spec
CONSTANTS
  N = 6
  Alphabet = {97, 10, 204, 129, 228, 184, 255}
INVARIANTS Stable Faithful Coordinates
CHECK_DEADLOCK FALSE
