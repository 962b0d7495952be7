SPECIFICATION MSpec
CONSTANTS
  MaxEnts = 5
  MaxUid = 3
  MDoms = {"d1"}
  MHows = {"good"}
  MWhos = {"keyserver"}
  Slice = "own"
INVARIANTS OnlyGenuine OnePerPos Confirmed KIOwners Validated
PROPERTIES AppendOnly NeverDropped
CHECK_DEADLOCK FALSE
