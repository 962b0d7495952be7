SPECIFICATION Spec
INVARIANTS OneSize OneHeader Paddable Fields AllFit
CHECK_DEADLOCK FALSE
