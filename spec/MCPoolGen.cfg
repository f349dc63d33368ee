SPECIFICATION GSpec
INVARIANT Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Good <- MCGood
  Harmless <- MCHarmless
  Endless <- MCEndless
  Says = {"ok", "bad", "part"}
  Returns <- MCReturns
  Slack = 0
  MaxConns = 4
  Susp = 1
  Tmo = 1
  Direct = {FALSE}
