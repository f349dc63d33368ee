----------------------------- MODULE ServerTrace ----------------------------
(* Traces of raw connections to a real server, checked against Server.tla.     *)
EXTENDS Message, Trace
VARIABLES conns, regs
tvars == <<t, l, conns, regs>>

(* Requests are recorded together with the reactions they allow (re) at the time *)
(* they were sent, answers together with their procedure (p).                    *)
TReact(q) == q.re
BodyAgrees(p, q, i) == p.body = "all" => i.body = q.body
(* An invocation i delivers q: to the dispatched procedure (and the owner of its *)
(* first registration), with its values and its body.                            *)
TDeliver(q, i) ==
  IF q.re.any THEN \E r \in q.regs : r.n = i.proc /\ r.owner = i.owner
  ELSE /\ q.re.r.n = i.proc /\ q.re.r.owner = i.owner
       /\ ValuesAgree(q.re.v, i)
       /\ BodyAgrees(q.re.r.p, q, i)
TConcerns(i, a) == i.proc = a.proc /\ i.tok = a.tok
TSends(q, a, r) == Conveys(a.p, a, r, q.method)
TRefuses(q, r) == OwnProblem(r, q.re.status, q.method)
TRejects(r) == r.status \in 400..599
TLost(q, a) == ~Sendable(a.p, a)

S == INSTANCE Server WITH React <- TReact, Deliver <- TDeliver, Concerns <- TConcerns,
                          Sends <- TSends, Refuses <- TRefuses, Rejects <- TRejects,
                          Lost <- TLost

Init == TInit /\ S!Init /\ regs = {}

Keep == UNCHANGED regs
Register ==
  /\ Is("register")
  /\ LET p == Procs[Ev.proc + 1]
         r == [method |-> p.method, entry |-> p.entry, p |-> p, n |-> Ev.proc, owner |-> Ev.owner]
         clash == \E x \in regs : Conflicts(x, r)
     IN /\ Ev.ok = (IF clash THEN 0 ELSE 1)
        /\ regs' = IF clash THEN regs ELSE regs \cup {r}
  /\ UNCHANGED conns
Open == Is("open") /\ Ev.ok = 1 /\ S!Open(Ev.c) /\ Keep
Asked(ev) == [method |-> ev.method, target |-> ev.target, headers |-> ev.headers, body |-> ev.body,
              regs |-> regs, re |-> Reaction(Lits, regs, ev)]
Req == Is("req") /\ (IF Ev.full = 1 THEN S!Send(Ev.c, Asked(Ev)) ELSE S!SendPart(Ev.c, Asked(Ev)))
       /\ Keep
Rest == Is("rest") /\ S!SendRest(Ev.c) /\ Keep
Junk == Is("junk") /\ S!Junk(Ev.c) /\ Keep
Close == (Is("close") \/ Is("reset")) /\ S!PeerClose(Ev.c) /\ Keep
Shut == Is("shut") /\ S!HalfClose(Ev.c) /\ Keep
Invoke == Is("invoke") /\ (\E c \in S!Live : S!Invoke(c, Ev)) /\ Keep
Replied(ev) == [proc |-> ev.proc, tok |-> ev.tok, v |-> ev.v, status |-> ev.status, header |-> ev.header,
                body |-> ev.body, problem |-> ev.problem, p |-> Procs[ev.proc + 1]]
Answer == Is("answer") /\ (\E c \in S!Live : S!Answer(c, Replied(Ev))) /\ Keep
Resp == Is("resp") /\ S!Respond(Ev.c, Ev) /\ Keep
RClosed == Is("rclosed") /\ S!ServerClose(Ev.c) /\ Keep
Leftover == Is("leftover") /\ Ev.n = 0 /\ S!Quiet(Ev.c, Ev.eof = 1) /\ Keep
SQuiet == Is("squiet") /\ S!Rest /\ Keep
Release == Is("release") /\ Ev.ok = 1 /\ UNCHANGED <<conns, regs>>
(* Events without meaning for the server. *)
Skip == (Is("tick") \/ Is("note")) /\ UNCHANGED <<conns, regs>>

Next == Register \/ Open \/ Req \/ Rest \/ Junk \/ Close \/ Shut \/ Invoke \/ Answer \/ Resp
        \/ RClosed \/ Leftover \/ SQuiet \/ Release \/ Skip
Spec == Init /\ [][Next]_tvars
=============================================================================
