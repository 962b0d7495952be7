SPECIFICATION MSpec
CONSTANTS
  MaxEnts = 3
  MaxUid = 2
  MDoms = {"d1"}
  MHows = {"good"}
  MWhos = {"keyserver"}
  Slice = "own"
INVARIANTS OnlyGenuine OnePerPos Confirmed KIOwners Validated
PROPERTIES AppendOnly NeverDropped
CHECK_DEADLOCK FALSE
