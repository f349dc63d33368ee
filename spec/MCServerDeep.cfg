SPECIFICATION MCSpec
CHECK_DEADLOCK FALSE
INVARIANTS InOrder AllAnswered OncePerRequest OnlyAsked AnswerMeansRun
PROPERTIES Isolated NotCut
CONSTANTS
  React <- MCReact
  Deliver <- MCDeliver
  Concerns <- MCConcerns
  Sends <- MCSends
  Refuses <- MCRefuses
  Rejects <- MCRejects
  Lost <- MCLost
  Conns = {1, 2}
  Kinds = {"good", "hold", "bad"}
  MaxReq = 2
