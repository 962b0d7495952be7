SPECIFICATION GSpec
CONSTANTS
  Hash = {"h1", "h2", "h3", "h4", "h5", "h6", "h7", "h8", "h9", "h10", "h11", "h12", "h13"}
  Usage = {"A", "B"}
  Owner = {"o1", "o2"}
  Ver = {1, 2, 3}
  Exp = {1, 2, 3, 4, 5}
  Kind = {"no", "packet", "blind", "newpriv"}
  Cred = {"c1", "c2"}
  Exps <- ExpsOld
  Depth = 60
INVARIANT Emit
CHECK_DEADLOCK FALSE
