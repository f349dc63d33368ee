SPECIFICATION Spec
CONSTANTS
  Calls = {1, 2}
  MaxConns = 2
  Size = 1
  Kinds = {"good"}
  Direct = {FALSE}
  Faults = {"drop"}
  NetStates = {"up", "down"}
INVARIANTS Once Apart Fresh
PROPERTIES Implements 
CHECK_DEADLOCK FALSE
