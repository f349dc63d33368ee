SPECIFICATION Spec
CHECK_DEADLOCK FALSE
VIEW View
INVARIANTS TreeAgrees Right Unique Statuses LiteralWins ExactWhenClear Conflict
PROPERTY Local
CONSTANTS
  MaxSegs = 2
  MaxPath = 2
  MaxRegs = 3
  Methods = {"GET", "PUT"}
  Lits = {97, 98}
  Empties = FALSE
