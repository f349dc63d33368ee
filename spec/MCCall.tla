-------------------------------- MODULE MCCall -------------------------------
(* The design of Call.tla with a small environment: calls which are issued,      *)
(* abandoned and whose transport fails at any time, and handlers which answer at  *)
(* once or much later.                                                            *)
EXTENDS Call, TLC
CONSTANTS Calls, Kinds
(* Kinds: "good", "hold" (answered later), "unfit" (no valid request), "odd" (the   *)
(* answer does not fit the caller's type).                                          *)
MCDeliver(q, i) == i.q = q /\ q.k # "unfit"
MCRefusable(q) == q.k = "unfit"
MCAnswers(i, a) == a.i = i
MCReads(q, a, r) == r.a = a /\ a.i.q = q /\ q.k # "odd"
MCUnreadable(q, a) == q.k = "odd"
NextCall == CHOOSE c \in Calls : c \notin Known /\ \A d \in Calls : d < c => d \in Known
Q(c) == calls[c].q
EIssue(k) == Known # Calls /\ Issue(NextCall, [c |-> NextCall, k |-> k])
ELeave(c) == c \in Known /\ ~calls[c].left /\ calls[c].st \notin {"ok", "err"} /\ Leave(c)
EHurt(c) == c \in Known /\ ~calls[c].hurt /\ Hurt(c)
ERelease(c) == c \in Known /\ Q(c).k = "hold" /\ Len(calls[c].i) = 1 /\ Answer(c, [i |-> calls[c].i[1]])
Env == (\E k \in Kinds : EIssue(k)) \/ \E c \in Calls : ELeave(c) \/ EHurt(c) \/ ERelease(c)
SInvoke(c) == c \in Known /\ Invoke(c, [q |-> Q(c)])
SAnswer(c) == c \in Known /\ Q(c).k # "hold" /\ Len(calls[c].i) = 1 /\ Answer(c, [i |-> calls[c].i[1]])
SSucceed(c) == c \in Known /\ Len(calls[c].a) = 1 /\ Succeed(c, [a |-> calls[c].a[1]])
SFail(c) == c \in Known /\ Fail(c)
Sys == \E c \in Calls : SInvoke(c) \/ SAnswer(c) \/ SSucceed(c) \/ SFail(c)
MCNext == Env \/ Sys
MCSpec == Init /\ [][MCNext]_vars
MCFair == MCSpec /\ \A c \in Calls : WF_vars(SInvoke(c)) /\ WF_vars(SAnswer(c)) /\ WF_vars(SSucceed(c) \/ SFail(c))
(* ---- properties ------------------------------------------------------------- *)
(* C17: at most one invocation; exactly one if it succeeds.  C11: its own answer. *)
OwnAnswer == \A c \in Known : /\ calls[c].i # <<>> => calls[c].i[1].q = Q(c)
                              /\ calls[c].a # <<>> => calls[c].a[1].i = calls[c].i[1]
NeverUnfit == \A c \in Known : Q(c).k = "unfit" => calls[c].i = <<>> /\ calls[c].st # "ok"
Final == [][\A c \in Known : calls[c].st \in {"ok", "err"} => calls'[c].st = calls[c].st]_vars
Independent == [][Cardinality({c \in Known : calls'[c] # calls[c]}) <= 1]_vars
(* C15: a call ends unless its handler keeps it waiting.                          *)
Ends == \A c \in Calls :
  (c \in Known /\ Q(c).k # "hold") ~> (c \in Known /\ (calls[c].left \/ calls[c].st \in {"ok", "err"}))
HurtEnds == \A c \in Calls : (c \in Known /\ calls[c].hurt) ~> (c \in Known /\ (calls[c].left \/ calls[c].st \in {"ok", "err"}))
=============================================================================
