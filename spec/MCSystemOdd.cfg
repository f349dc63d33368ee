SPECIFICATION Spec
CONSTANTS
  Calls = {1, 2}
  MaxConns = 2
  Size = 1
  Kinds = {"good", "unfit", "mute", "odd"}
  Direct = {FALSE}
  Faults = {}
  NetStates = {"up"}
INVARIANTS Once Apart Fresh
PROPERTIES Implements 
CHECK_DEADLOCK FALSE
