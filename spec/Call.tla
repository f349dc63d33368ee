--------------------------------- MODULE Call -------------------------------
(* Remote procedure calls as seen from both ends: a call is issued, its handler *)
(* is invoked (at most once), answers, and the call returns - the answer, or an *)
(* error.                                                                       *)
(*   Deliver(q, i)    invocation i delivers the request of call q;              *)
(*   Refusable(q)     the values of q cannot be carried by HTTP;                *)
(*   Answers(i, a)    a is the answer of invocation i;                          *)
(*   Reads(q, a, r)   r is how the caller reads the answer a;                   *)
(*   Unreadable(q, a) the answer may make the call fail.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Deliver(_, _), Refusable(_), Answers(_, _), Reads(_, _, _), Unreadable(_, _)
VARIABLES calls     \* call -> record
vars == <<calls>>

(* st: "issued", "run", "done", "ok", "err"; hurt: the transport may have failed; *)
(* left: the caller has abandoned the call                                       *)
Init == calls = <<>>
Known == DOMAIN calls
Upd(c, f) == calls' = [calls EXCEPT ![c] = f]
Issue(c, q) ==
  /\ c \notin Known
  /\ calls' = [x \in Known \cup {c} |->
                 IF x = c THEN [st |-> "issued", hurt |-> FALSE, left |-> FALSE, q |-> q, i |-> <<>>, a |-> <<>>]
                 ELSE calls[x]]
Invoke(c, i) ==
  /\ c \in Known /\ calls[c].i = <<>>
  /\ calls[c].st = "issued" \/ calls[c].hurt \/ calls[c].left
  /\ Deliver(calls[c].q, i)
  /\ Upd(c, [calls[c] EXCEPT !.st = IF @ = "issued" THEN "run" ELSE @, !.i = Append(@, i)])
Answer(c, a) ==
  /\ c \in Known /\ Len(calls[c].i) = 1 /\ calls[c].a = <<>>
  /\ Answers(calls[c].i[1], a)
  /\ Upd(c, [calls[c] EXCEPT !.st = IF @ = "run" THEN "done" ELSE @, !.a = Append(@, a)])
Succeed(c, r) ==
  /\ c \in Known /\ calls[c].st = "done" /\ ~calls[c].left
  /\ Reads(calls[c].q, calls[c].a[1], r)
  /\ Upd(c, [calls[c] EXCEPT !.st = "ok"])
MayFail(k) ==
  \/ k.hurt
  \/ k.st = "issued" /\ Refusable(k.q)
  \/ k.st = "done" /\ Unreadable(k.q, k.a[1])
Fail(c) ==
  /\ c \in Known /\ calls[c].st \in {"issued", "run", "done"} /\ ~calls[c].left
  /\ MayFail(calls[c])
  /\ Upd(c, [calls[c] EXCEPT !.st = "err"])
(* The transport of a call fails at an arbitrary point.                         *)
Hurt(c) == c \in Known /\ Upd(c, [calls[c] EXCEPT !.hurt = TRUE])
Leave(c) == c \in Known /\ Upd(c, [calls[c] EXCEPT !.left = TRUE])
(* When nothing more is going to happen, only calls whose handler is running may  *)
(* be unfinished, and only if their transport is intact.                         *)
Waiting(c) == c \in Known /\ ~calls[c].left /\ calls[c].st = "run" /\ ~calls[c].hurt

TypeOK == \A c \in Known : calls[c].st \in {"issued", "run", "done", "ok", "err"}
AtMostOnce == \A c \in Known : Len(calls[c].i) <= 1 /\ Len(calls[c].a) <= Len(calls[c].i)
OkMeansOnce == \A c \in Known : calls[c].st = "ok" => Len(calls[c].i) = 1 /\ Len(calls[c].a) = 1
=============================================================================
