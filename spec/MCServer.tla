------------------------------- MODULE MCServer ------------------------------
(* The design of Server.tla with a small environment, for exhaustive checking:  *)
(* peers which open connections, send good and bad requests, parts of requests  *)
(* and junk, half-close, close and vanish at any time; handlers which answer at *)
(* once or much later.                                                          *)
EXTENDS Server, TLC
CONSTANTS Conns, Kinds, MaxReq
(* Kinds of requests: "good", "hold" (its handler answers much later), "bad"     *)
(* (refused), "mute" (its answer cannot be sent).                                *)
MCReact(q) == [may |-> q.k # "bad"]
MCDeliver(q, i) == i.q = q
MCConcerns(i, a) == a.i = i
MCSends(q, a, r) == r.to = q /\ a.i.q = q /\ r.k = "answer"
MCRefuses(q, r) == r.to = q /\ r.k = "problem" /\ q.k = "bad"
MCRejects(r) == r.k = "problem"
MCLost(q, a) == q.k = "mute"

VARIABLES sent,   \* connection -> complete requests sent while the connection was sound
          got,    \* connection -> responses received
          ran     \* requests whose handlers have been invoked (with repetition)
mvars == <<conns, sent, got, ran>>
Add(f, c, x) == [f EXCEPT ![c] = Append(@, x)]
NextConn == CHOOSE c \in Conns : c \notin Live /\ \A d \in Conns : d < c => d \in Live
Req(c, k) == [c |-> c, n |-> Len(sent[c]) + 1, k |-> k]
Sound(c) == conns[c].st # "over"

MCInit == Init /\ sent = [c \in Conns |-> <<>>] /\ got = [c \in Conns |-> <<>>] /\ ran = <<>>
Note(c, q) == sent' = (IF Sound(c) THEN Add(sent, c, q) ELSE sent) /\ UNCHANGED <<got, ran>>
Same == UNCHANGED <<sent, got, ran>>
CanSend(c) == c \in Live /\ conns[c].up /\ ~conns[c].fin /\ Len(sent[c]) < MaxReq
(* ---- the environment --------------------------------------------------------- *)
EOpen == Live # Conns /\ Open(NextConn) /\ Same
ESend(c, k) == CanSend(c) /\ conns[c].st \in {"idle", "over"} /\ Send(c, Req(c, k)) /\ Note(c, Req(c, k))
EPart(c, k) == CanSend(c) /\ conns[c].st = "idle" /\ SendPart(c, Req(c, k)) /\ Same
ERest(c) == CanSend(c) /\ conns[c].st = "part" /\ SendRest(c) /\ Note(c, conns[c].q[1])
EJunk(c) == CanSend(c) /\ conns[c].st \in {"idle"} /\ Junk(c) /\ Same
EClose(c) == c \in Live /\ conns[c].up /\ PeerClose(c) /\ Same
EHalf(c) == c \in Live /\ conns[c].up /\ ~conns[c].fin /\ HalfClose(c) /\ Same
ERelease(c) == c \in Live /\ conns[c].st = "run" /\ conns[c].q[1].k = "hold" /\ Answer(c, [i |-> conns[c].i[1]]) /\ Same
Env == \/ EOpen
       \/ \E c \in Conns : ERest(c) \/ EJunk(c) \/ EClose(c) \/ EHalf(c) \/ ERelease(c)
       \/ \E c \in Conns, k \in Kinds : ESend(c, k) \/ EPart(c, k)
(* ---- the server -------------------------------------------------------------- *)
SInvoke(c) == /\ c \in Live /\ conns[c].st = "sent" /\ Invoke(c, [q |-> conns[c].q[1]])
              /\ ran' = Append(ran, conns[c].q[1]) /\ UNCHANGED <<sent, got>>
SAnswer(c) == c \in Live /\ conns[c].st = "run" /\ conns[c].q[1].k # "hold" /\ Answer(c, [i |-> conns[c].i[1]]) /\ Same
SRespond(c) ==
  /\ c \in Live /\ conns[c].st \in {"sent", "done"} /\ ~(conns[c].st = "done" /\ MCLost(conns[c].q[1], 0))
  /\ LET r == [to |-> conns[c].q[1], k |-> IF conns[c].st = "done" THEN "answer" ELSE "problem"]
     IN Respond(c, r) /\ got' = Add(got, c, r) /\ UNCHANGED <<sent, ran>>
SBye(c) == c \in Live /\ conns[c].st = "junk" /\ Respond(c, [to |-> <<>>, k |-> "problem"]) /\ Same
SClose(c) == c \in Live /\ conns[c].st # "over" /\ ServerClose(c) /\ Same
Sys == \E c \in Conns : SInvoke(c) \/ SAnswer(c) \/ SRespond(c) \/ SBye(c) \/ SClose(c)
MCNext == Env \/ Sys
MCSpec == MCInit /\ [][MCNext]_mvars
MCFair == MCSpec /\ \A c \in Conns : WF_mvars(SInvoke(c)) /\ WF_mvars(SAnswer(c)) /\ WF_mvars(SRespond(c) \/ SClose(c))

(* ---- properties ---------------------------------------------------------------- *)
(* C09: the k-th response answers the k-th request, with its own answer.            *)
InOrder == \A c \in Live : /\ Len(got[c]) <= Len(sent[c])
                           /\ \A k \in 1..Len(got[c]) : got[c][k].to = sent[c][k]
AllAnswered == \A c \in Live : conns[c].st = "idle" => Len(got[c]) = Len(sent[c])
(* C08, C17: handlers run at most once per request, only for complete serviceable ones. *)
OncePerRequest == \A i, j \in 1..Len(ran) : ran[i] = ran[j] => i = j
OnlyAsked == \A i \in 1..Len(ran) : ran[i].k # "bad" /\ \E k \in 1..Len(sent[ran[i].c]) : sent[ran[i].c][k] = ran[i]
AnswerMeansRun == \A c \in Live : \A k \in 1..Len(got[c]) : (got[c][k].k = "answer") = (\E i \in 1..Len(ran) : ran[i] = got[c][k].to)
(* C10: a step concerns one connection only.                                        *)
Isolated == [][Cardinality({c \in Live : conns'[c] # conns[c]}) <= 1 /\ Live \subseteq DOMAIN conns']_mvars
(* C10: the server ends only connections whose peers have broken or closed them.    *)
NotCut == [][\A c \in Live : (conns'[c].st = "over" /\ conns[c].st # "over" /\ ~conns'[c].fin)
                => conns[c].st = "junk" \/ (conns[c].st = "done" /\ conns[c].q[1].k = "mute")]_mvars
(* C09: every complete request is answered as long as its peer listens.             *)
Answered == \A c \in Conns :
  (c \in Live /\ conns[c].st = "sent" /\ conns[c].q[1].k \in {"good", "bad"} /\ conns[c].up)
     ~> (c \in Live /\ (~conns[c].up \/ conns[c].st \in {"idle", "over"}))
=============================================================================
