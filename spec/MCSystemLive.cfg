SPECIFICATION Fair
CONSTANTS
  Calls = {1, 2}
  MaxConns = 2
  Size = 1
  Kinds = {"good", "mute"}
  Direct = {FALSE}
  Faults = {"cut"}
  NetStates = {"up"}
INVARIANTS Once Apart Fresh
PROPERTIES Implements Ends
CHECK_DEADLOCK FALSE
