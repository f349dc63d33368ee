SPECIFICATION GSpec
INVARIANT Dump
CHECK_DEADLOCK FALSE
CONSTANTS
  Deliver <- MCDeliver
  Refusable <- MCRefusable
  Answers <- MCAnswers
  Reads <- MCReads
  Unreadable <- MCUnreadable
