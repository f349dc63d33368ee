-------------------------------- MODULE MCRoute ------------------------------
(* All sets of registrations over small entry points; for each, every request    *)
(* path is dispatched.  Also prints the histories for replay (Dump).              *)
EXTENDS Route, TLC, Json
CONSTANTS MaxSegs, MaxPath, MaxRegs, Methods, Lits, Empties
(* Literals are the texts <<x>>, x in Lits; Empties: whether the empty literal is  *)
(* one as well.  Paths have segments of these texts and of one other.             *)
Texts == {<<x>> : x \in Lits} \cup (IF Empties THEN {<<>>} ELSE {})
Segs == {[k |-> "lit", x |-> x] : x \in Texts} \cup {[k |-> "var", x |-> <<>>]}
RECURSIVE Tuples(_, _)
Tuples(S, n) == IF n = 0 THEN {<<>>} ELSE LET T == Tuples(S, n - 1) IN T \cup {Append(s, x) : s \in {u \in T : Len(u) = n - 1}, x \in S}
Entries == Tuples(Segs, MaxSegs)
Other == <<122>>
Paths == {p \in Tuples({[k |-> "text", out |-> x] : x \in Texts \cup {Other, <<>>}} \cup {[k |-> "bad", out |-> <<>>]}, MaxPath) : p # <<>>}
AllRegs == {[method |-> m, entry |-> e] : m \in Methods, e \in Entries}

VARIABLES regs, hist
vars == <<regs, hist>>
Init == regs = {} /\ hist = <<>>
Register(r) ==
  /\ Len(hist) < MaxRegs
  /\ hist' = Append(hist, r)
  /\ regs' = IF \E x \in regs : Conflicts(x, r) THEN regs ELSE regs \cup {r}
Next == \E r \in AllRegs : Register(r)
Spec == Init /\ [][Next]_vars
(* The order of registrations matters only among conflicting ones: sets are explored. *)
View == <<regs, Len(hist)>>

Found(m, p) == Dispatch(regs, m, p)
(* The tree walk and the declarative definition agree.                              *)
TreeAgrees == \A m \in Methods, p \in Paths : Dispatch(regs, m, p) = TreeDispatch(regs, m, p)
(* What is found matches exactly.                                                    *)
Right == \A m \in Methods, p \in Paths : LET d == Found(m, p) IN
           d.k = "found" => d.r \in regs /\ d.r.method = m /\ Matches(d.r, p)
(* At most one registration can be found: conflicts are refused.                     *)
Unique == \A p \in Paths : \A r, s \in Reached(regs, p) : r.method = s.method => r = s
(* 404 iff no registration of any method is reached.                                 *)
Statuses == \A m \in Methods, p \in Paths : LET d == Found(m, p) IN
              /\ (d.k = "none" /\ d.status = 405) => \E n \in Methods : Found(n, p).k = "found"
              /\ (d.k = "none" /\ d.status = 404) => \A n \in Methods : Found(n, p).k = "none" /\ Found(n, p).status = 404
(* A path of literals which is registered is found, whatever else is registered.     *)
LiteralWins == \A r \in regs : (\A i \in 1..Len(r.entry) : r.entry[i].k = "lit") =>
  LET p == [i \in 1..Len(Norm(r.entry)) |-> [k |-> "text", out |-> Norm(r.entry)[i].x]]
  IN Found(r.method, p).k = "found" /\ Conflicts(Found(r.method, p).r, r)
(* Without literals and variables at the same place, exact matching is dispatch.      *)
NoOverlap == \A r, s \in regs : \A i \in 1..Len(Norm(r.entry)) :
   (i <= Len(Norm(s.entry)) /\ \A j \in 1..(i-1) : SameSegment(Norm(r.entry)[j], Norm(s.entry)[j]))
     => Norm(r.entry)[i].k = Norm(s.entry)[i].k
ExactWhenClear == NoOverlap => \A m \in Methods, p \in Paths :
   (Found(m, p).k = "found") = (\E r \in regs : r.method = m /\ Matches(r, p))
(* Registering more never changes what is found for another method's reach ... but    *)
(* a new registration affects only paths it may reach.                               *)
Local == [][\A m \in Methods, p \in Paths :
             LET new == regs' \ regs IN
             (\A r \in new : Len(Norm(r.entry)) < Len(p) /\ ~\E q \in {SubSeq(p, 1, Len(Norm(r.entry)))} : Matches(r, q))
               => Dispatch(regs', m, p) = Dispatch(regs, m, p)]_vars
Conflict == \A r, s \in regs : Conflicts(r, s) => r = s
Dump == Len(hist) = MaxRegs => PrintT("HIST " \o ToJson(hist))
=============================================================================
