------------------------------ MODULE MCCallGen ------------------------------
(* All histories of the environment of MCCall up to a given length, for replay.   *)
EXTENDS MCCall, Json
CONSTANTS Depth, Acts, Ways      \* Ways: how calls are made (the pool, the address)
VARIABLE hist
gvars == <<vars, hist>>
Does(e) == e \in Acts
Step(e, c, k, w) == hist' = Append(hist, [e |-> e, c |-> c, k |-> k, w |-> w])
Steps ==
  \/ \E k \in Kinds, w \in Ways : Does("issue") /\ EIssue(k) /\ Step("issue", NextCall, k, w)
  \/ \E c \in Known : \/ Does("release") /\ ERelease(c) /\ Step("release", c, "", "")
                      \/ Does("leave") /\ ELeave(c) /\ Step("leave", c, "", "")
GInit == Init /\ hist = <<>>
GNext == IF ENABLED Sys THEN Sys /\ UNCHANGED hist ELSE Len(hist) < Depth /\ Steps
GSpec == GInit /\ [][GNext]_gvars
Dump == (Len(hist) = Depth /\ ~ENABLED Sys) => PrintT("HIST " \o ToJson(hist))
=============================================================================
