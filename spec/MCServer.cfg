SPECIFICATION MCFair
CHECK_DEADLOCK FALSE
INVARIANTS InOrder AllAnswered OncePerRequest OnlyAsked AnswerMeansRun
PROPERTIES Isolated NotCut Answered
CONSTANTS
  React <- MCReact
  Deliver <- MCDeliver
  Concerns <- MCConcerns
  Sends <- MCSends
  Refuses <- MCRefuses
  Rejects <- MCRejects
  Lost <- MCLost
  Conns = {1, 2}
  Kinds = {"good", "hold", "bad", "mute"}
  MaxReq = 1
