SPECIFICATION Spec
CONSTANTS
  Nyms = {1, 2}
  People = {1, 2}
  MaxMsgs = 0
  MaxTok = 0
  MaxInc = 2
  MaxFaults = 1
  MaxRuns = 3
  Cmds = {"fetch", "contact"}
  Start0 <- S0
INVARIANTS OnePlace SentIsTaken Once Ordered TokenParts TokenOnce TokenUsed SpentInEnv NoneLocked EnvsPaid Sends Prefix FetchedOnce FiledRight FiledKnown Fetches
PROPERTIES Policy Stays
CHECK_DEADLOCK FALSE
