-------------------------------- MODULE Route -------------------------------
(* Registration and dispatch of procedures.                                   *)
(*                                                                            *)
(* An entry point is a sequence of segments [k, x]: k = "lit" with the text x, *)
(* or k = "var".  The entry point without segments denotes the path "/", i.e.  *)
(* the path with one empty segment.                                            *)
(* A registration is a record with the fields method and entry.                *)
EXTENDS Text

EmptyLit == [k |-> "lit", x |-> <<>>]
Norm(entry) == IF entry = <<>> THEN <<EmptyLit>> ELSE entry
SameSegment(a, b) == a.k = b.k /\ (a.k = "lit" => a.x = b.x)
SameEntry(a, b) == LET m == Norm(a) n == Norm(b) IN
  Len(m) = Len(n) /\ \A i \in 1..Len(m) : SameSegment(m[i], n[i])
Conflicts(r, s) == r.method = s.method /\ SameEntry(r.entry, s.entry)

(* -------- declarative dispatch --------------------------------------------- *)
(* A path is a sequence of decoded segments (see Text!DecodeText); a segment   *)
(* which is not a text equals no literal.                                      *)
Fits(seg, d) == seg.k = "var" \/ (d.k = "text" /\ d.out = seg.x)
(* Which registrations are still candidates after i segments: at each segment  *)
(* the literals that equal it win over variables, and there is no backtracking. *)
RECURSIVE Candidates(_, _, _)
Candidates(regs, path, i) ==
  IF i = 0 THEN {r \in regs : TRUE}
  ELSE LET prev == {r \in Candidates(regs, path, i - 1) : Len(Norm(r.entry)) >= i}
           lit  == {r \in prev : Norm(r.entry)[i].k = "lit" /\ Fits(Norm(r.entry)[i], path[i])}
           var  == {r \in prev : Norm(r.entry)[i].k = "var"}
       IN IF lit # {} THEN lit ELSE var
Reached(regs, path) ==
  {r \in Candidates(regs, path, Len(path)) : Len(Norm(r.entry)) = Len(path)}
(* [k |-> "found", r], or [k |-> "none", status].                               *)
Dispatch(regs, method, path) ==
  LET at == Reached(regs, path)
      m  == {r \in at : r.method = method}
  IN IF at = {} THEN [k |-> "none", status |-> 404]
     ELSE IF m = {} THEN [k |-> "none", status |-> 405]
     ELSE [k |-> "found", r |-> CHOOSE r \in m : TRUE]

(* -------- the same by way of a tree, as routers do it ----------------------- *)
(* A node is the set of registrations below it together with its depth; the     *)
(* tree is walked along the path.                                               *)
RECURSIVE Walk(_, _, _)
Walk(node, path, i) ==
  IF i > Len(path) THEN node
  ELSE LET here == {r \in node : Len(Norm(r.entry)) >= i}
           child == {r \in here : LET s == Norm(r.entry)[i] IN s.k = "lit" /\ Fits(s, path[i])}
           wild == {r \in here : Norm(r.entry)[i].k = "var"}
       IN IF child # {} THEN Walk(child, path, i + 1)
          ELSE IF wild # {} THEN Walk(wild, path, i + 1) ELSE {}
TreeDispatch(regs, method, path) ==
  LET leafs == {r \in Walk(regs, path, 1) : Len(Norm(r.entry)) = Len(path)}
  IN IF leafs = {} THEN [k |-> "none", status |-> 404]
     ELSE IF \E r \in leafs : r.method = method
          THEN [k |-> "found", r |-> CHOOSE r \in leafs : r.method = method]
          ELSE [k |-> "none", status |-> 405]

(* Exact matching (every segment fits) - used to state what dispatch guarantees. *)
Matches(r, path) == Len(Norm(r.entry)) = Len(path) /\ \A i \in 1..Len(path) : Fits(Norm(r.entry)[i], path[i])
=============================================================================
