SPECIFICATION GSpec
CONSTANTS
  Hash = {"h1", "h2", "h3", "h4", "h5", "h6"}
  Usage = {"A", "B"}
  Owner = {"o1", "o2"}
  Ver = {1, 2, 3}
  Exp = {1, 2, 3, 4, 5}
  Kind = {"no", "packet", "blind", "newpriv"}
  Cred = {"c1", "c2"}
  Exps <- ExpsSpread
  Depth = 40
INVARIANT Emit
CHECK_DEADLOCK FALSE
