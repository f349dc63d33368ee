------------------------------ MODULE MCPoolGen ------------------------------
(* All histories of the environment of MCPool up to a given length: whenever the *)
(* client has nothing left to do, the environment takes its next step.  The      *)
(* histories are printed and replayed with the real code.                        *)
EXTENDS MCPool, Json
CONSTANTS Depth, Acts      \* Acts: which steps the environment takes
VARIABLE hist
gvars == <<vars, hist>>
Note(e) == hist' = Append(hist, e)
Does(e) == e \in Acts
Steps ==
  \/ \E a \in Addrs, d \in Direct :
       /\ Does("issue") /\ Known # Calls /\ Issue(NextCall, a, ~d, FALSE)
       /\ Note([e |-> "issue", c |-> NextCall, a |-> a, x |-> IF d THEN 1 ELSE 0, m |-> ""])
  \/ \E c \in Known :
       /\ Does("cancel") /\ calls[c].st \notin {"ok", "err", "left"} /\ Abandon(c)
       /\ Note([e |-> "cancel", c |-> c, a |-> 0, x |-> 0, m |-> ""])
  \/ \E a \in Addrs, s \in NetStates :
       /\ Does("net") /\ net[a] # s /\ ~(net[a] = "hang" /\ Connecting(a) # {}) /\ SetNet(a, s)
       /\ Note([e |-> "net", c |-> 0, a |-> a, x |-> 0, m |-> s])
  \/ /\ Does("tick") /\ now < MaxNow /\ Tick(1) /\ Note([e |-> "tick", c |-> 0, a |-> 0, x |-> 0, m |-> ""])
  \/ \E c \in Known, m \in Says :
       /\ Does(m) /\ calls[c].st = "sent" /\ conns[calls[c].conn].dead = "no" /\ Send(c, m)
       /\ ~(\E i \in 1..Len(hist) : hist[i].e = "send" /\ hist[i].c = c)
       /\ Note([e |-> "send", c |-> c, a |-> 0, x |-> 0, m |-> m])
  \/ \E x \in DOMAIN conns, h \in Hows :
       /\ Does("close") /\ conns[x].dead = "no" /\ conns[x].st \in {"idle", "busy"} /\ PeerCloses(x, h)
       /\ Note([e |-> "close", c |-> 0, a |-> 0, x |-> x, m |-> h])
  \/ Does("drop") /\ DropPool /\ Note([e |-> "drop", c |-> 0, a |-> 0, x |-> 0, m |-> ""])
GInit == MCInit /\ hist = <<>>
GNext == IF ENABLED Sys THEN Sys /\ UNCHANGED hist ELSE Len(hist) < Depth /\ Steps
GSpec == GInit /\ [][GNext]_gvars
Dump == (Len(hist) = Depth /\ ~ENABLED Sys) => PrintT("HIST " \o ToJson(hist))
=============================================================================
