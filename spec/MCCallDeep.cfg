SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK AtMostOnce OkMeansOnce OwnAnswer NeverUnfit
PROPERTIES Final Independent
CONSTANTS
  Deliver <- MCDeliver
  Refusable <- MCRefusable
  Answers <- MCAnswers
  Reads <- MCReads
  Unreadable <- MCUnreadable
  Calls = {1, 2, 3}
  Kinds = {"hold", "unfit", "odd"}
