-------------------------------- MODULE Pool --------------------------------
(* The client side of calls: plain clients, which open a connection per call,   *)
(* and the connection pool, with its idle connections, the suspension of        *)
(* unreachable addresses and the connect timeout.                               *)
(*                                                                              *)
(* Observable steps: a caller issues, abandons or gets the result of a call; a  *)
(* peer sees connections, requests and closed connections; it replies or        *)
(* closes; addresses go up and down; time passes.                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Good(_, _),       \* Good(c, m): m is a complete response for call c
          Endless(_),       \* where m ends is told by the end of the connection only
          Harmless(_),      \* m is (so far) only the beginning of a response
          Returns(_, _),    \* Returns(m, r): result r is the response m
          Slack             \* precision of timers
VARIABLES pool,    \* [up, size, susp, tmo]
          idle,    \* connections, the one released longest ago first
          conns,   \* connection -> [addr, st, call, dead]
          calls,   \* call -> [addr, pooled, unfit (it has no valid request), st, conn, t0, m,
                   \*          got (its request has been seen)]
          block,   \* address -> time until which it is suspended
          net,     \* address -> "up", "down", "hang"
          now
vars == <<pool, idle, conns, calls, block, net, now>>

(* Connections (as seen by the peers): "new": accepted, "busy": with a call,     *)
(* "idle": in the pool, "gone": the client has to close it, "shut": it has.      *)
(* dead: the peer has closed it ("full"), or in its direction only ("half").      *)
(* Calls: "susp": the address is suspended; "conn": connecting; "have": has got   *)
(* an idle connection; "sent": its request has arrived; "open": it is receiving a  *)
(* response which ends with the connection; "good": a complete response has been    *)
(* sent to it; "bad": something has gone wrong; "lost": the     *)
(* pool is gone; "ok", "err": finished; "left": abandoned.                        *)
Init ==
  /\ pool = [up |-> FALSE, size |-> 0, susp |-> 0, tmo |-> 0]
  /\ idle = <<>> /\ conns = <<>> /\ calls = <<>> /\ block = <<>> /\ net = <<>> /\ now = 0

Known == DOMAIN calls
Net(a) == IF a \in DOMAIN net THEN net[a] ELSE "down"
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
Suspended(a) == a \in DOMAIN block /\ now < block[a]
MaybeSuspended(a) == a \in DOMAIN block /\ now <= block[a]
IdleFor(a) == {x \in {idle[i] : i \in 1..Len(idle)} : conns[x].addr = a}

Over(st) == IF st = "shut" THEN "shut" ELSE "gone"

MakePool(size, susp, tmo) ==
  /\ ~pool.up
  /\ pool' = [up |-> TRUE, size |-> size, susp |-> susp, tmo |-> tmo]
  /\ UNCHANGED <<idle, conns, calls, block, net, now>>
(* The pool is dropped: its idle connections are closed; calls which have not got *)
(* a connection yet may fail.                                                    *)
DropPool ==
  /\ pool.up
  /\ pool' = [pool EXCEPT !.up = FALSE]
  /\ conns' = [x \in DOMAIN conns |-> IF conns[x].st = "idle" THEN [conns[x] EXCEPT !.st = "gone"] ELSE conns[x]]
  /\ idle' = <<>>
  /\ UNCHANGED <<calls, block, net, now>>
SetNet(a, s) == net' = With(net, a, s) /\ UNCHANGED <<pool, idle, conns, calls, block, now>>
Tick(d) == now' = now + d /\ UNCHANGED <<pool, idle, conns, calls, block, net>>

(* (conn is -1 while a call has no connection, -2 when it will not get one.)      *)
Issue(c, a, pooled, unfit) ==
  /\ c \notin Known
  /\ LET Record(st, x) == [addr |-> a, pooled |-> pooled, unfit |-> unfit, st |-> st, conn |-> x,
                           t0 |-> now, m |-> <<>>, got |-> FALSE] IN
     IF ~pooled
     THEN /\ calls' = With(calls, c, Record("conn", -1))
          /\ UNCHANGED <<idle, conns>>
     ELSE IF ~pool.up
     THEN /\ calls' = With(calls, c, Record("lost", -2))
          /\ UNCHANGED <<idle, conns>>
     ELSE \/ /\ MaybeSuspended(a)
             /\ calls' = With(calls, c, Record("susp", -2))
             /\ UNCHANGED <<idle, conns>>
          \/ /\ ~Suspended(a) /\ IdleFor(a) = {}
             /\ calls' = With(calls, c, Record("conn", -1))
             /\ UNCHANGED <<idle, conns>>
          \/ /\ ~Suspended(a)
             /\ \E x \in IdleFor(a) :
                  /\ calls' = With(calls, c, Record("have", x))
                  /\ idle' = Without(idle, x)
                  /\ conns' = [conns EXCEPT ![x].st = "busy", ![x].call = <<c>>]
  /\ UNCHANGED <<pool, block, net, now>>

(* A peer accepts a connection: some call is connecting to its address.          *)
Connecting(a) == {c \in Known : calls[c].addr = a /\ calls[c].st = "conn"}
(* Calls which have ended while (perhaps) connecting.                            *)
Abandoned(a) == {c \in Known : calls[c].addr = a /\ calls[c].st \in {"left", "err"} /\ calls[c].conn = -1}
NewAt(a) == {x \in DOMAIN conns : conns[x].addr = a /\ conns[x].st = "new"}
Accept(x, a) ==
  /\ x \notin DOMAIN conns
  /\ Cardinality(NewAt(a)) < Cardinality(Connecting(a)) + Cardinality(Abandoned(a))
  /\ conns' = With(conns, x, [addr |-> a, st |-> "new", call |-> <<>>, dead |-> "no"])
  /\ UNCHANGED <<pool, idle, calls, block, net, now>>
(* A request arrives, once per call: on the idle connection of the call, or on a   *)
(* new one; it may be under way when the call ends.                               *)
Arrived(st, x) == IF st \in {"have", "conn"} THEN IF conns[x].dead # "no" THEN "bad" ELSE "sent" ELSE st
Request(c, x) ==
  /\ c \in Known /\ x \in DOMAIN conns /\ ~calls[c].got /\ ~calls[c].unfit
  /\ \/ /\ calls[c].st \in {"have", "left", "err"} /\ calls[c].conn = x
        /\ calls' = [calls EXCEPT ![c].st = Arrived(@, x), ![c].got = TRUE]
        /\ UNCHANGED conns
     \/ /\ calls[c].st \in {"conn", "left"} /\ calls[c].conn = -1
        /\ conns[x].st = "new" /\ conns[x].addr = calls[c].addr
        /\ calls' = [calls EXCEPT ![c].st = Arrived(@, x), ![c].conn = x, ![c].got = TRUE]
        /\ conns' = IF calls[c].st = "conn" THEN [conns EXCEPT ![x].st = "busy", ![x].call = <<c>>]
                    ELSE [conns EXCEPT ![x].st = "gone"]
  /\ UNCHANGED <<pool, idle, block, net, now>>
(* The peer sends something on the connection of a request.                       *)
Send(c, m) ==
  /\ c \in Known /\ calls[c].st \in {"sent", "open", "left", "bad", "err"}
  /\ calls' = IF calls[c].st # "sent" THEN calls      \* too late
              ELSE IF Good(c, m) THEN [calls EXCEPT ![c].st = IF Endless(m) THEN "open" ELSE "good", ![c].m = <<m>>]
              ELSE IF Harmless(m) THEN calls
              ELSE [calls EXCEPT ![c].st = "bad"]
  /\ UNCHANGED <<pool, idle, conns, block, net, now>>
(* The peer closes (or half-closes) a connection; a reset may destroy what has    *)
(* been sent.                                                                     *)
PeerCloses(x, how) ==
  /\ x \in DOMAIN conns /\ conns[x].st # "shut"
  /\ conns' = [conns EXCEPT ![x].dead = IF how = "half" /\ @ # "full" THEN "half" ELSE "full"]
  /\ calls' = [c \in Known |->
       IF calls[c].conn = x /\ calls[c].st = "sent" THEN [calls[c] EXCEPT !.st = "bad"]
       ELSE IF calls[c].conn = x /\ calls[c].st = "open"
            THEN [calls[c] EXCEPT !.st = IF how = "reset" THEN "bad" ELSE "good"]
       ELSE IF calls[c].conn = x /\ calls[c].st = "good" /\ how = "reset" THEN [calls[c] EXCEPT !.st = "shaky"]
       ELSE calls[c]]
  /\ UNCHANGED <<pool, idle, block, net, now>>
(* A call which waits for a pool that is gone.                                     *)
Orphan(k) == k.st \in {"conn", "have"} /\ k.pooled /\ ~pool.up
(* The client closes a connection: only one it has to close.                      *)
ClientCloses(x) ==
  /\ x \in DOMAIN conns
  /\ \/ conns[x].st = "gone" /\ UNCHANGED calls
     \/ /\ conns[x].st = "new"
        /\ \E c \in Abandoned(conns[x].addr) : calls' = [calls EXCEPT ![c].conn = -2]
     \/ /\ conns[x].st = "busy" /\ Orphan(calls[conns[x].call[1]])    \* dropped with the pool
        /\ UNCHANGED calls
  /\ conns' = [conns EXCEPT ![x].st = "shut"]
  /\ UNCHANGED <<pool, idle, block, net, now>>

(* A call returns a response: its connection becomes idle, and the one which was  *)
(* released longest ago is closed if there are too many now.                      *)
Succeed(c, r) ==
  /\ c \in Known /\ calls[c].st \in {"good", "shaky"} /\ Returns(calls[c].m[1], r)
  /\ LET x == calls[c].conn IN
     IF calls[c].pooled /\ pool.up
     THEN LET all == Append(idle, x) IN
          IF Len(all) > pool.size
          THEN /\ idle' = Tail(all)
               /\ conns' = [y \in DOMAIN conns |->
                    IF y = Head(all) THEN [conns[y] EXCEPT !.st = "gone", !.call = <<>>]
                    ELSE IF y = x THEN [conns[y] EXCEPT !.st = "idle", !.call = <<>>] ELSE conns[y]]
          ELSE /\ idle' = all
               /\ conns' = [conns EXCEPT ![x].st = "idle", ![x].call = <<>>]
     ELSE idle' = idle /\ conns' = [conns EXCEPT ![x].st = "gone", ![x].call = <<>>]
  /\ calls' = [calls EXCEPT ![c].st = "ok"]
  /\ UNCHANGED <<pool, block, net, now>>

(* Any number of calls, one after the other, which all succeed with the only idle  *)
(* connection to their address: Issue, Request, Send and Succeed again and again.   *)
Cycle(x) ==
  /\ pool.up /\ x \in DOMAIN conns /\ IdleFor(conns[x].addr) = {x}
  /\ ~Suspended(conns[x].addr) /\ conns[x].dead = "no"
  /\ idle' = Append(Without(idle, x), x)
  /\ UNCHANGED <<pool, conns, calls, block, net, now>>

TimedOut(k) == k.pooled /\ now >= k.t0 + pool.tmo - Slack
Refused(k) == k.st = "conn" /\ (Net(k.addr) = "down" \/ (Net(k.addr) = "hang" /\ TimedOut(k)))
Stale(k) == k.st = "have" /\ conns[k.conn].dead # "no"
(* A new connection which its peer has closed before the request arrived.         *)
Jilted(k) == k.st = "conn" /\ \E x \in NewAt(k.addr) : conns[x].dead # "no"
(* A call without a valid request: whether or not it has opened a connection.     *)
Unsendable(k) == k.st \in {"conn", "have"} /\ k.unfit
MayFail(k) == k.st \in {"susp", "bad", "lost", "shaky"} \/ Refused(k) \/ Stale(k) \/ Jilted(k) \/ Orphan(k)
              \/ Unsendable(k)
Fail(c) ==
  /\ c \in Known /\ MayFail(calls[c])
  /\ calls' = [calls EXCEPT ![c].st = "err",
                            ![c].conn = IF @ = -1 /\ ~(calls[c].unfit \/ Orphan(calls[c])) THEN -2 ELSE @]
  /\ conns' = LET x == calls[c].conn IN
              IF x >= 0 THEN [conns EXCEPT ![x].st = Over(@), ![x].call = <<>>]
              ELSE IF Jilted(calls[c])
              THEN LET y == CHOOSE y \in NewAt(calls[c].addr) : conns[y].dead # "no"
                   IN [conns EXCEPT ![y].st = "gone"]
              ELSE conns
  /\ \/ /\ Refused(calls[c]) /\ calls[c].pooled /\ pool.up
        /\ block' = With(block, calls[c].addr, now + pool.susp)
     \/ /\ ~(Refused(calls[c]) /\ calls[c].pooled /\ pool.up) \/ calls[c].unfit
        /\ block' = block
  /\ UNCHANGED <<pool, idle, net, now>>
(* A caller abandons a call: its connection is closed.                             *)
Abandon(c) ==
  /\ c \in Known
  /\ IF calls[c].st \in {"ok", "err", "left"} THEN UNCHANGED <<calls, conns>>
     ELSE /\ calls' = [calls EXCEPT ![c].st = "left"]
          /\ conns' = LET x == calls[c].conn IN
                      IF x < 0 THEN conns ELSE [conns EXCEPT ![x].st = Over(@), ![x].call = <<>>]
  /\ UNCHANGED <<pool, idle, block, net, now>>

(* Nothing more is going to happen without further input: everything that has to  *)
(* have happened has.                                                              *)
MayWait(k) ==
  \/ k.st \in {"ok", "err", "left", "sent", "open"}
  \/ k.st = "conn" /\ Net(k.addr) = "hang" /\ ~(k.pooled /\ now > k.t0 + pool.tmo + Slack)
MayStay(x) ==
  \/ conns[x].st \in {"idle", "busy", "shut"}
  \/ conns[x].dead = "full"         \* (the peer does not look any more)
Quiet ==
  /\ \A c \in Known : MayWait(calls[c])
  /\ \A x \in DOMAIN conns : MayStay(x)
  /\ calls' = [c \in Known |-> IF calls[c].st \in {"left", "err"} /\ calls[c].conn = -1
                               THEN [calls[c] EXCEPT !.conn = -2] ELSE calls[c]]
  /\ UNCHANGED <<pool, idle, conns, block, net, now>>

(* ---- what this design guarantees ------------------------------------------------ *)
IdleBound == pool.up => Len(idle) <= pool.size
IdleDistinct == \A i, j \in 1..Len(idle) : idle[i] = idle[j] => i = j
IdleFree == \A i \in 1..Len(idle) : conns[idle[i]].st = "idle" /\ conns[idle[i]].call = <<>>
OneCall == \A c, d \in Known : /\ c # d
                               /\ calls[c].st \in {"have", "sent", "open", "good", "shaky", "bad"}
                               /\ calls[d].st \in {"have", "sent", "open", "good", "shaky", "bad"}
                               => calls[c].conn # calls[d].conn
RightAddress == \A c \in Known : calls[c].conn >= 0 => conns[calls[c].conn].addr = calls[c].addr
CleanIdle == \A i \in 1..Len(idle) : \A c \in Known :
               calls[c].conn = idle[i] => calls[c].st = "ok"
NoAttempt == \A c \in Known : calls[c].st = "susp" => calls[c].conn = -2
=============================================================================
