SPECIFICATION Spec
CONSTANTS
  N = 3
  ND = 2
INVARIANTS Idempotent Spellings CaseOfDomain Form Faithful
CHECK_DEADLOCK FALSE
