SPECIFICATION Spec
CONSTANTS
  N = 4
  ND = 2
INVARIANTS Idempotent Spellings CaseOfDomain Form Faithful
CHECK_DEADLOCK FALSE
