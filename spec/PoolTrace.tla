------------------------------ MODULE PoolTrace -----------------------------
(* Traces of calls to raw peers, through a pool or not, checked against Pool.tla. *)
EXTENDS Message, Trace
VARIABLES pool, idle, conns, calls, block, net, now
pvars == <<pool, idle, conns, calls, block, net, now>>

(* Messages and results are referred to by the position [t, l] of their events.   *)
Here == [t |-> t, l |-> l]
E(r) == Traces[r.t].events[r.l]
ProcOf(m, c) ==
  LET es == Traces[m.t].events
      k == CHOOSE k \in 1..m.l : es[k].e = "issue" /\ es[k].id = c
  IN Traces[m.t].procs[es[k].proc + 1]
Complete(m) == E(m).kind = "resp" /\ E(m).full = 1
TGood(c, m) == Complete(m) /\ E(m).tok = c /\ Reading(<<>>, ProcOf(m, c), E(m)).v = "yes"
(* (Responses of these statuses have no body, if no length says otherwise.)           *)
Bodiless(m) == E(m).status \in (100..199) \cup {204, 304}
TEndless(m) == E(m).nolen = 1 /\ ~Bodiless(m) /\ ProcOf(m, E(m).tok).method # "HEAD"
THarmless(m) == E(m).kind = "resp" /\ E(m).full = 0
TReturns(m, r) == /\ E(r).status = E(m).status /\ E(r).id = E(m).tok /\ E(r).tok = E(m).xtok
                  /\ IF ProcOf(r, E(r).id).method = "HEAD" THEN E(r).body.n = 0 ELSE E(r).body = E(m).body
(* (Unfit calls of the scenarios have the path variable "..".)                       *)
Unfit(ev) == Len(ev.path) = 1 /\ ev.path[1].x = <<46, 46>>

P == INSTANCE Pool WITH Good <- TGood, Harmless <- THarmless, Endless <- TEndless, Returns <- TReturns, Slack <- 2

Init == TInit /\ P!Init
MakePool == Is("pool") /\ P!MakePool(Ev.size, Ev.suspend, Ev.timeout)
DropPool == Is("droppool") /\ P!DropPool
Net == Is("net") /\ P!SetNet(Ev.addr, Ev.st)
Tick == Is("tick") /\ P!Tick(Ev.ms)
Issue == Is("issue") /\ P!Issue(Ev.id, Ev.addr, Ev.pooled = 1, Unfit(Ev))
Accept == Is("saccept") /\ P!Accept(Ev.conn, Ev.addr)
SReq == Is("sreq") /\ P!Request(Ev.tok, Ev.conn)
Reply == Is("reply") /\ P!Send(Ev.tok, Here)
SClose == Is("sclose") /\ (IF Ev.dead = 1 THEN UNCHANGED pvars ELSE P!PeerCloses(Ev.conn, Ev.how))
SClosed == Is("sclosed") /\ P!ClientCloses(Ev.conn)
Ret == Is("ret") /\ (IF Ev.ok = 1 THEN P!Succeed(Ev.id, Here) ELSE P!Fail(Ev.id))
Cancel == Is("cancel") /\ P!Abandon(Ev.id)
Quiet == Is("quiet") /\ P!Quiet
Warm == Is("warm") /\ Ev.conn \in DOMAIN conns /\ conns[Ev.conn].addr = Ev.addr /\ P!Cycle(Ev.conn)
Skip == Is("note") /\ UNCHANGED pvars
Next == MakePool \/ DropPool \/ Net \/ Tick \/ Issue \/ Accept \/ SReq \/ Reply \/ SClose \/ SClosed
        \/ Ret \/ Cancel \/ Quiet \/ Warm \/ Skip
Spec == Init /\ [][Next]_<<t, l, pvars>>
=============================================================================
