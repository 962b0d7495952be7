SPECIFICATION GSpec
CONSTANTS
  Depth = 40
  Sends = 4
  Recvs = 10
  Books = 5
INVARIANT Emit
CHECK_DEADLOCK FALSE
