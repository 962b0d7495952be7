SPECIFICATION GSpec
CONSTANTS
  Depth = 40
  Sends = 12
  Recvs = 3
  Books = 2
INVARIANT Emit
CHECK_DEADLOCK FALSE
