SPECIFICATION Spec
CONSTANTS
  Nyms = {1, 2}
  People = {1, 2}
  MaxMsgs = 2
  MaxTok = 2
  MaxInc = 0
  MaxFaults = 1
  MaxRuns = 2
  Cmds = {"send", "fetch"}
  Start0 <- S0
INVARIANTS OnePlace SentIsTaken Once Ordered TokenParts TokenOnce TokenUsed SpentInEnv NoneLocked EnvsPaid Sends Prefix FetchedOnce FiledRight FiledKnown Fetches
PROPERTIES Policy Stays
CHECK_DEADLOCK FALSE
