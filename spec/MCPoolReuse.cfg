SPECIFICATION MCSpec
CONSTANTS
  Good <- MCGood
  Harmless <- MCHarmless
  Endless <- MCEndless
  Says = {"ok", "bad", "part"}
  Returns <- MCReturns
  Slack = 0
  Calls = {1, 2, 3}
  Addrs = {1, 2}
  MaxConns = 2
  MaxNow = 0
  Size = 1
  Susp = 1
  Tmo = 1
  Direct = {FALSE}
  NetStates = {"up"}
  Hows = {}
INVARIANTS IdleBound IdleDistinct IdleFree OneCall RightAddress CleanIdle NoAttempt NoLeak
PROPERTIES Blocked Cause NeverReused 
CHECK_DEADLOCK FALSE
