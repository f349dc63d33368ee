SPECIFICATION GSpec
INVARIANT Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  React <- MCReact
  Deliver <- MCDeliver
  Concerns <- MCConcerns
  Sends <- MCSends
  Refuses <- MCRefuses
  Rejects <- MCRejects
  Lost <- MCLost
