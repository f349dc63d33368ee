SPECIFICATION Spec
CONSTANTS
  Calls = {1, 2, 3}
  MaxConns = 2
  Size = 1
  Kinds = {"good"}
  Direct = {FALSE}
  Faults = {"cut"}
  NetStates = {"up"}
INVARIANTS Once Apart Fresh
PROPERTIES Implements
CHECK_DEADLOCK FALSE
