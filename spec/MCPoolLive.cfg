SPECIFICATION MCFair
CONSTANTS
  Good <- MCGood
  Harmless <- MCHarmless
  Endless <- MCEndless
  Says = {"ok", "bad", "part", "endless"}
  Returns <- MCReturns
  Slack = 0
  Calls = {1, 2}
  Addrs = {1}
  MaxConns = 2
  MaxNow = 0
  Size = 1
  Susp = 1
  Tmo = 1
  Direct = {FALSE}
  NetStates = {"up", "down"}
  Hows = {"close"}
INVARIANTS IdleBound IdleDistinct IdleFree OneCall RightAddress CleanIdle NoAttempt NoLeak
PROPERTIES Blocked Cause NeverReused Finishes Closes
CHECK_DEADLOCK FALSE
