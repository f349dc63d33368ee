-------------------------------- MODULE MCPool -------------------------------
(* The design of Pool.tla with a small environment, for exhaustive checking:    *)
(* calls c1.. to addresses, through the pool or not, peers which reply well,     *)
(* badly, in part or not at all, close connections in every way, addresses which *)
(* go down, up or hang, time in steps of one, abandoned calls, a dropped pool.    *)
EXTENDS Pool, TLC
CONSTANTS Calls, Addrs, Says, MaxConns, MaxNow, Size, Susp, Tmo, Direct, NetStates, Hows
MCGood(c, m) == m \in {"ok", "endless"}
MCEndless(m) == m = "endless"
MCHarmless(m) == m = "part"
MCReturns(m, r) == m = r

(* Calls are issued in a fixed order (they are interchangeable).                 *)
NextCall == CHOOSE c \in Calls : c \notin Known /\ \A d \in Calls : d < c => d \in Known
MCInit ==
  /\ pool = [up |-> TRUE, size |-> Size, susp |-> Susp, tmo |-> Tmo]
  /\ idle = <<>> /\ conns = <<>> /\ calls = <<>> /\ block = <<>> /\ now = 0
  /\ net = [a \in Addrs |-> "up"]

(* ---- the environment -------------------------------------------------------- *)
EIssue == \E a \in Addrs, d \in Direct : Known # Calls /\ Issue(NextCall, a, ~d, FALSE)
EAbandon == \E c \in Known : calls[c].st \notin {"ok", "err", "left"} /\ Abandon(c)
ENet == \E a \in Addrs, s \in NetStates : net[a] # s /\ SetNet(a, s)
ETick == now < MaxNow /\ Tick(1)
ESend == \E c \in Known, m \in Says : calls[c].st = "sent" /\ conns[calls[c].conn].dead # "full" /\ Send(c, m)
EClose == \E x \in DOMAIN conns, h \in Hows :
            conns[x].dead # "full" /\ ~(h = "half" /\ conns[x].dead = "half") /\ PeerCloses(x, h)
EDrop == DropPool
Env == EIssue \/ EAbandon \/ ENet \/ ETick \/ ESend \/ EClose \/ EDrop

(* ---- the client ------------------------------------------------------------- *)
FreeConn == Cardinality(DOMAIN conns) + 1
SAccept == \E a \in Addrs : net[a] = "up" /\ FreeConn <= MaxConns /\ Accept(FreeConn, a)
SRequest == \E c \in Known, x \in DOMAIN conns : calls[c].st \in {"have", "conn"} /\ Request(c, x)
SSucceed == \E c \in Known : calls[c].st \in {"good", "shaky"} /\ Succeed(c, calls[c].m[1])
SFail == \E c \in Known : Fail(c)
SClose == \E x \in DOMAIN conns : ClientCloses(x)
Sys == SAccept \/ SRequest \/ SSucceed \/ SFail \/ SClose
MCNext == Env \/ Sys
MCSpec == MCInit /\ [][MCNext]_vars
MCFair == MCSpec /\ WF_vars(SRequest) /\ WF_vars(SSucceed) /\ WF_vars(SFail) /\ WF_vars(SClose)

(* ---- properties --------------------------------------------------------------- *)
Ended(c) == c \in Known /\ calls[c].st \in {"ok", "err", "left"}
(* An idle connection has carried only exchanges which succeeded.                  *)
NoLeak == \A x \in DOMAIN conns : conns[x].st = "idle" => x \in {idle[i] : i \in 1..Len(idle)}
(* While an address is suspended no call attempts to connect.                      *)
Blocked == [][\A c \in Calls : (c \notin Known /\ c \in DOMAIN calls' /\ calls'[c].pooled /\ pool.up
                                /\ Suspended(calls'[c].addr)) => calls'[c].st = "susp"]_vars
(* Suspension starts only with a failed attempt to connect.                        *)
Cause == [][\A a \in DOMAIN block' : (a \notin DOMAIN block \/ block'[a] # block[a])
              => \E c \in Known : calls[c].addr = a /\ Refused(calls[c]) /\ calls'[c].st = "err"]_vars
(* Connections of abandoned or failed calls are never used again.                  *)
NeverReused == [][\A c \in Known : calls[c].st \in {"left", "err"} /\ calls[c].conn >= 1
                     => conns'[calls[c].conn].st \in {"gone", "shut"}]_vars
Finishes == \A c \in Calls :
  /\ (c \in Known /\ calls[c].st \in {"susp", "bad", "lost"}) ~> Ended(c)
  /\ (c \in Known /\ calls[c].st = "good") ~> (Ended(c))
Closes == \A x \in 1..MaxConns : (x \in DOMAIN conns /\ conns[x].st = "gone") ~> (x \in DOMAIN conns /\ conns[x].st = "shut")
=============================================================================
