SPECIFICATION MCFair
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK AtMostOnce OkMeansOnce OwnAnswer NeverUnfit
PROPERTIES Final Independent Ends HurtEnds
CONSTANTS
  Deliver <- MCDeliver
  Refusable <- MCRefusable
  Answers <- MCAnswers
  Reads <- MCReads
  Unreadable <- MCUnreadable
  Calls = {1, 2}
  Kinds = {"good", "hold", "unfit", "odd"}
