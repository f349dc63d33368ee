----------------------------- MODULE MCServerGen -----------------------------
(* All histories of the environment of MCServer up to a given length: whenever   *)
(* the server has nothing left to do, the environment takes its next step.  The   *)
(* histories are printed and replayed with the real code.                         *)
EXTENDS MCServer, Json
CONSTANTS Depth, Acts
VARIABLE hist
gvars == <<mvars, hist>>
Does(e) == e \in Acts
Step(e, c, k) == hist' = Append(hist, [e |-> e, c |-> c, k |-> k])
Steps ==
  \/ Does("open") /\ EOpen /\ Step("open", NextConn, "")
  \/ \E c \in Live, k \in Kinds :
       \/ Does("send") /\ conns[c].st = "idle" /\ ESend(c, k) /\ Step("send", c, k)
       \/ Does("part") /\ EPart(c, k) /\ Step("part", c, k)
  \/ \E c \in Live :
       \/ Does("rest") /\ ERest(c) /\ Step("rest", c, "")
       \/ Does("junk") /\ EJunk(c) /\ Step("junk", c, "")
       \/ Does("release") /\ ERelease(c) /\ Step("release", c, "")
       \/ \E h \in {"close", "reset"} : Does(h) /\ EClose(c) /\ Step(h, c, "")
       \/ Does("shut") /\ EHalf(c) /\ Step("shut", c, "")
(* The server comes to rest: it does not leave anything it could do (whether it    *)
(* closes a connection which its peer has broken does not matter here).           *)
Must == \E c \in Conns : SInvoke(c) \/ SAnswer(c) \/ SRespond(c)
GInit == MCInit /\ hist = <<>>
GNext == IF ENABLED Must THEN Must /\ UNCHANGED hist ELSE Len(hist) < Depth /\ Steps
GSpec == GInit /\ [][GNext]_gvars
Dump == (Len(hist) = Depth /\ ~ENABLED Must) => PrintT("HIST " \o ToJson(hist))
=============================================================================
