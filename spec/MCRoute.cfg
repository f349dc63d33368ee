SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS TreeAgrees Right Unique Statuses LiteralWins ExactWhenClear Conflict
PROPERTY Local
CONSTANTS
  MaxSegs = 2
  MaxPath = 3
  MaxRegs = 3
  Methods = {"GET", "PUT"}
  Lits = {97}
  Empties = FALSE
