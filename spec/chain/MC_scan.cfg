SPECIFICATION MSpec
CONSTANTS
  MaxEnts = 3
  MaxUid = 0
  MDoms = {"d1"}
  MHows = {"good", "miscommit", "fakesig", "short"}
  MWhos = {"keyserver", "alice"}
  Slice = "scan"
INVARIANTS OnlyGenuine OnePerPos Confirmed KIOwners Validated
PROPERTIES AppendOnly NeverDropped
CHECK_DEADLOCK FALSE
