-------------------------------- MODULE Trace -------------------------------
(* Reading recorded traces; each trace is [id, procs, lits, events].            *)
(* Position l of trace t is explored from its own initial state; the register t *)
(* holds the furthest position reached, and a trace is accepted if that is its  *)
(* end.                                                                         *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l
TInit == t \in 1..Len(Traces) /\ l = 1 /\ TLCSet(t, 1)
Procs == Traces[t].procs
Lits == Traces[t].lits
Events == Traces[t].events
More == l <= Len(Events)
Ev == Events[l]
Is(e) == More /\ Ev.e = e /\ l' = l + 1 /\ t' = t
Progress == IF TLCGet(t) < l THEN TLCSet(t, l) ELSE TRUE
Accepted ==
  /\ \A i \in 1..Len(Traces) :
       TLCGet(i) = Len(Traces[i].events) + 1 \/ PrintT(<<"REJECTED", i, TLCGet(i)>>)
  /\ PrintT(<<"CHECKED", Len(Traces)>>)
=============================================================================
