SPECIFICATION MSpec
CONSTANTS
  MaxEnts = 4
  MaxUid = 0
  MDoms = {"d1"}
  MHows = {"good", "unlinked", "short"}
  MWhos = {"alice"}
  Slice = "sync"
INVARIANTS OnlyGenuine OnePerPos Confirmed KIOwners Validated
PROPERTIES AppendOnly NeverDropped
CHECK_DEADLOCK FALSE
