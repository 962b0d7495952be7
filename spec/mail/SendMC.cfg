SPECIFICATION Spec
CONSTANTS
  Nyms = {1, 2}
  People = {1, 2}
  MaxMsgs = 2
  MaxTok = 3
  MaxInc = 0
  MaxFaults = 2
  MaxRuns = 3
  Cmds = {"send"}
  Start0 <- S0
INVARIANTS OnePlace SentIsTaken Once Ordered TokenParts TokenOnce TokenUsed SpentInEnv NoneLocked EnvsPaid Sends Prefix FetchedOnce FiledRight FiledKnown Fetches
PROPERTIES Policy Stays
CHECK_DEADLOCK FALSE
