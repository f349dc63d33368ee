------------------------------- MODULE MCSystem ------------------------------
(* Clients (Pool.tla) and a server (Server.tla) put together: what arrives at a   *)
(* peer of the one is what the other receives.  The composition is checked to      *)
(* implement Call.tla: the specification of both sides of a connection implies     *)
(* the one of calls from end to end.                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Calls, MaxConns, Size, Kinds, Direct, Faults, NetStates
(* Kinds: "good", "hold" (its handler answers much later), "unfit" (it has no valid  *)
(* request), "mute" (the answer cannot be sent), "odd" (the answer is not one of the *)
(* caller's type).                                                                    *)
A == 1      \* the address of the server
VARIABLES pool, idle, conns, calls, block, net, now,      \* of Pool
          sconns,                                         \* of Server
          kind,    \* call -> kind
          inv,     \* call -> invocations of its handler
          ans,     \* call -> answers of them
          hurt     \* calls whose transport has failed
pvars == <<pool, idle, conns, calls, block, net, now>>
hist == <<kind, inv, ans, hurt>>
vars == <<pvars, sconns, hist>>

Q(c) == [c |-> c, k |-> kind[c]]
PGood(c, m) == m.k = "answer" /\ m.a.i.q.c = c /\ m.a.i.q.k # "odd"
PHarmless(m) == FALSE
PEndless(m) == FALSE
PReturns(m, r) == r = m
P == INSTANCE Pool WITH Good <- PGood, Harmless <- PHarmless, Endless <- PEndless, Returns <- PReturns, Slack <- 0
SReact(q) == [may |-> TRUE]
SDeliver(q, i) == i.q = q
SConcerns(i, a) == a.i = i
SSends(q, a, r) == r = [k |-> "answer", a |-> a] /\ q.k # "mute"
SRefuses(q, r) == FALSE
SRejects(r) == r.k = "problem"
SLost(q, a) == q.k = "mute"
S == INSTANCE Server WITH conns <- sconns, React <- SReact, Deliver <- SDeliver, Concerns <- SConcerns,
                          Sends <- SSends, Refuses <- SRefuses, Rejects <- SRejects, Lost <- SLost

Init ==
  /\ pool = [up |-> TRUE, size |-> Size, susp |-> 1, tmo |-> 1]
  /\ idle = <<>> /\ conns = <<>> /\ calls = <<>> /\ block = <<>> /\ now = 0 /\ net = [a \in {A} |-> "up"]
  /\ S!Init
  /\ kind = [c \in Calls |-> "none"] /\ hurt = {}
  /\ inv = [c \in Calls |-> <<>>] /\ ans = [c \in Calls |-> <<>>]

Known == DOMAIN calls
NextCall == CHOOSE c \in Calls : c \notin Known /\ \A d \in Calls : d < c => d \in Known
FreeConn == Cardinality(DOMAIN conns) + 1
(* ---- the environment --------------------------------------------------------------- *)
Issue(k, d) ==
  /\ Known # Calls
  /\ P!Issue(NextCall, A, ~d, k = "unfit")
  /\ kind' = [kind EXCEPT ![NextCall] = k] /\ UNCHANGED <<sconns, inv, ans, hurt>>
Abandon(c) ==
  /\ c \in Known /\ calls[c].st \notin {"ok", "err", "left"}
  /\ P!Abandon(c) /\ UNCHANGED <<sconns, hist>>
Release(x) ==
  /\ x \in DOMAIN sconns /\ sconns[x].st = "run" /\ sconns[x].q[1].k = "hold"
  /\ LET c == sconns[x].q[1].c a == [i |-> sconns[x].i[1]]
     IN S!Answer(x, a) /\ ans' = [ans EXCEPT ![c] = Append(@, a)]
  /\ UNCHANGED <<pvars, kind, inv, hurt>>
SetNet(s) == net[A] # s /\ P!SetNet(A, s) /\ UNCHANGED <<sconns, hist>>
Tick == now < 2 /\ NetStates # {"up"} /\ P!Tick(1) /\ UNCHANGED <<sconns, hist>>
DropPool == "drop" \in Faults /\ P!DropPool /\ UNCHANGED <<sconns, hist>>
(* The network breaks a connection: either side finds it closed by the other.            *)
Cut(x) ==
  /\ "cut" \in Faults /\ x \in DOMAIN conns /\ conns[x].dead = "no"
  /\ P!PeerCloses(x, "reset") /\ S!PeerClose(x) /\ UNCHANGED hist
Env == \/ \E k \in Kinds, d \in Direct : Issue(k, d)
       \/ \E c \in Calls : Abandon(c)
       \/ \E x \in 1..MaxConns : Release(x) \/ Cut(x)
       \/ \E s \in NetStates : SetNet(s)
       \/ Tick \/ DropPool
(* ---- both sides ------------------------------------------------------------------------ *)
Accept ==
  /\ net[A] = "up" /\ FreeConn <= MaxConns
  /\ P!Accept(FreeConn, A) /\ S!Open(FreeConn) /\ UNCHANGED hist
(* A request arrives (or is lost with the connection).                                      *)
Request(c, x) ==
  /\ c \in Known /\ x \in DOMAIN conns
  /\ P!Request(c, x)
  /\ IF sconns[x].up /\ ~sconns[x].fin THEN S!Send(x, Q(c)) ELSE UNCHANGED sconns
  /\ UNCHANGED hist
Invoke(x) ==
  /\ x \in DOMAIN sconns /\ sconns[x].st = "sent"
  /\ LET q == sconns[x].q[1] i == [q |-> q]
     IN S!Invoke(x, i) /\ inv' = [inv EXCEPT ![q.c] = Append(@, i)]
  /\ UNCHANGED <<pvars, kind, ans, hurt>>
Answer(x) ==
  /\ x \in DOMAIN sconns /\ sconns[x].st = "run" /\ sconns[x].q[1].k # "hold"
  /\ LET c == sconns[x].q[1].c a == [i |-> sconns[x].i[1]]
     IN S!Answer(x, a) /\ ans' = [ans EXCEPT ![c] = Append(@, a)]
  /\ UNCHANGED <<pvars, kind, inv, hurt>>
(* A response goes to the call that has the connection.                                       *)
Respond(x) ==
  /\ x \in DOMAIN sconns /\ sconns[x].st = "done"
  /\ LET r == [k |-> "answer", a |-> sconns[x].a[1]] IN
     /\ S!Respond(x, r)
     /\ IF conns[x].call # <<>> THEN P!Send(conns[x].call[1], r) ELSE UNCHANGED pvars
  /\ UNCHANGED hist
ServerCloses(x) ==
  /\ x \in DOMAIN sconns /\ sconns[x].st # "over"
  /\ S!ServerClose(x)
  /\ IF conns[x].st # "shut" /\ conns[x].dead = "no" THEN P!PeerCloses(x, "close") ELSE UNCHANGED pvars
  /\ UNCHANGED hist
ClientCloses(x) ==
  /\ x \in DOMAIN conns
  /\ P!ClientCloses(x) /\ S!PeerClose(x) /\ UNCHANGED hist
Succeed(c) ==
  /\ c \in Known /\ calls[c].st \in {"good", "shaky"}
  /\ P!Succeed(c, calls[c].m[1]) /\ UNCHANGED <<sconns, hist>>
(* A call's transport fails before the call does (an auxiliary step, for Call.tla).           *)
Sound(c) == \/ kind[c] = "unfit" /\ calls[c].st \in {"conn", "have"}
            \/ kind[c] = "odd" /\ ans[c] # <<>>
Notice(c) ==
  /\ c \in Known \ hurt /\ P!MayFail(calls[c]) /\ ~Sound(c)
  /\ hurt' = hurt \cup {c} /\ UNCHANGED <<pvars, sconns, kind, inv, ans>>
Fail(c) == c \in Known /\ (c \in hurt \/ Sound(c)) /\ P!Fail(c) /\ UNCHANGED <<sconns, hist>>
Sys == \/ Accept
       \/ \E c \in Calls, x \in 1..MaxConns : Request(c, x)
       \/ \E x \in 1..MaxConns : Invoke(x) \/ Answer(x) \/ Respond(x) \/ ServerCloses(x) \/ ClientCloses(x)
       \/ \E c \in Calls : Succeed(c) \/ Notice(c) \/ Fail(c)
Next == Env \/ Sys
Spec == Init /\ [][Next]_vars
Fair == Spec /\ WF_vars(Accept) /\ \A c \in Calls :
          /\ WF_vars(Succeed(c) \/ Notice(c) \/ Fail(c))
          /\ \A x \in 1..MaxConns : WF_vars(Request(c, x)) /\ WF_vars(Invoke(x)) /\ WF_vars(Answer(x))
                                    /\ WF_vars(Respond(x) \/ ServerCloses(x)) /\ WF_vars(ClientCloses(x))

(* ---- the calls of Call.tla ---------------------------------------------------------------- *)
State(c) == IF calls[c].st \in {"ok", "err"} THEN calls[c].st
            ELSE IF ans[c] # <<>> THEN "done" ELSE IF inv[c] # <<>> THEN "run" ELSE "issued"
Seen == [c \in Known |-> [st |-> State(c), hurt |-> c \in hurt, left |-> calls[c].st = "left", q |-> Q(c), i |-> inv[c], a |-> ans[c]]]
CDeliver(q, i) == i.q = q /\ q.k # "unfit"
CRefusable(q) == q.k = "unfit"
CAnswers(i, a) == a.i = i
CReads(q, a, r) == r.a = a /\ q.k # "odd"
CUnreadable(q, a) == q.k = "odd"
C == INSTANCE Call WITH calls <- Seen, Deliver <- CDeliver, Refusable <- CRefusable, Answers <- CAnswers,
                        Reads <- CReads, Unreadable <- CUnreadable
CallStep ==
  \E c \in Calls :
    \/ \E k \in Kinds : C!Issue(c, [c |-> c, k |-> k])
    \/ \E k \in Kinds : LET i == [q |-> [c |-> c, k |-> k]] IN
         C!Invoke(c, i) \/ C!Answer(c, [i |-> i]) \/ C!Succeed(c, [k |-> "answer", a |-> [i |-> i]])
    \/ C!Fail(c) \/ C!Hurt(c) \/ C!Leave(c)
Implements == C!Init /\ [][CallStep]_Seen
(* ---- end to end --------------------------------------------------------------------------- *)
Once == C!AtMostOnce /\ C!OkMeansOnce
(* The bytes of one call's exchange never meet another call.                                   *)
Apart == \A x \in DOMAIN conns : (conns[x].call # <<>> /\ sconns[x].q # <<>>) => sconns[x].q[1].c = conns[x].call[1]
Fresh == \A i \in 1..Len(idle) : sconns[idle[i]].st \in {"idle", "over"}
Ends == \A c \in Calls : (c \in Known /\ kind[c] # "hold" /\ net[A] = "up")
          ~> (c \in Known /\ (net[A] # "up" \/ calls[c].st \in {"ok", "err", "left"}))
=============================================================================
