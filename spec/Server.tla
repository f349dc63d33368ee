-------------------------------- MODULE Server ------------------------------
(* The server side of connections: requests arrive on connections, each is     *)
(* answered by a problem response or by invoking a handler once and sending    *)
(* its answer.  Peers may send anything and close whenever they like.          *)
(*                                                                            *)
(* The content of requests is abstracted by operators:                         *)
(*   React(q)       the allowed reactions [may, status, any, ...] to q;        *)
(*   Deliver(q, i)  invocation i delivers q faithfully to the right handler;   *)
(*   Concerns(i, a) answer a is the answer of the handler invocation i;        *)
(*   Sends(q, a, r) response r conveys the answer a to request q;              *)
(*   Refuses(q, r)  response r is a proper problem response for q;             *)
(*   Rejects(r)     response r is an error response.                           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS React(_), Deliver(_, _), Concerns(_, _), Sends(_, _, _), Refuses(_, _),
          Rejects(_), Lost(_, _)      \* the answer a of request q cannot be sent at all

VARIABLES conns      \* connection -> record, for the connections opened so far
vars == <<conns>>

(* st: "idle"      no request is outstanding                                  *)
(*     "part"      a request has been sent in part                             *)
(*     "sent"      a complete request has been sent                            *)
(*     "run"       its handler is running                                      *)
(*     "done"      its handler has answered                                    *)
(*     "junk"      the peer has sent something that is not a (whole) request   *)
(*     "over"      the server has closed (or must close) the connection        *)
(* up: the peer can still receive;  fin: the peer has half-closed              *)
Fresh == [st |-> "idle", up |-> TRUE, fin |-> FALSE, q |-> <<>>, i |-> <<>>, a |-> <<>>]
Init == conns = <<>>
Live == DOMAIN conns
Upd(c, f) == conns' = [conns EXCEPT ![c] = f]

Open(c) ==
  /\ c \notin Live
  /\ conns' = [x \in Live \cup {c} |-> IF x = c THEN Fresh ELSE conns[x]]
(* The peer sends a (complete or truncated) request.                           *)
Send(c, q) ==
  /\ c \in Live /\ conns[c].st \in {"idle", "over"}
  /\ Upd(c, IF conns[c].st = "over" THEN conns[c]
            ELSE [conns[c] EXCEPT !.st = "sent", !.q = <<q>>, !.i = <<>>, !.a = <<>>])
SendPart(c, q) ==
  /\ c \in Live /\ conns[c].st \in {"idle", "over"}
  /\ Upd(c, IF conns[c].st = "over" THEN conns[c]
            ELSE [conns[c] EXCEPT !.st = "part", !.q = <<q>>, !.i = <<>>, !.a = <<>>])
SendRest(c) ==
  /\ c \in Live /\ conns[c].st \in {"part", "over"}
  /\ Upd(c, IF conns[c].st = "over" THEN conns[c] ELSE [conns[c] EXCEPT !.st = "sent"])
Junk(c) ==
  /\ c \in Live /\ conns[c].st \in {"idle", "part", "junk", "over"}
  /\ Upd(c, [conns[c] EXCEPT !.st = "junk"])
(* The peer closes, resets or half-closes.  What has been sent completely may   *)
(* still be handled.                                                           *)
PeerClose(c) ==
  /\ c \in Live
  /\ Upd(c, [conns[c] EXCEPT !.up = FALSE, !.fin = TRUE,
                             !.st = IF @ \in {"sent", "run", "done"} THEN @ ELSE "over"])
HalfClose(c) ==
  /\ c \in Live
  /\ Upd(c, [conns[c] EXCEPT !.fin = TRUE,
                             !.st = IF @ \in {"sent", "run", "done"} THEN @
                                    ELSE IF @ \in {"part", "junk"} THEN "junk" ELSE "over"])

(* A handler is invoked: only for a complete request, at most once.             *)
Invoke(c, i) ==
  /\ c \in Live /\ conns[c].st = "sent"
  /\ React(conns[c].q[1]).may /\ Deliver(conns[c].q[1], i)
  /\ Upd(c, [conns[c] EXCEPT !.st = "run", !.i = <<i>>])
Answer(c, a) ==
  /\ c \in Live /\ conns[c].st = "run" /\ Concerns(conns[c].i[1], a)
  /\ Upd(c, [conns[c] EXCEPT !.st = "done", !.a = <<a>>])
(* A response arrives: the answer of the handler, or a refusal.                 *)
After(cn) == [cn EXCEPT !.st = IF cn.fin THEN "over" ELSE "idle", !.q = <<>>, !.i = <<>>, !.a = <<>>]
Respond(c, r) ==
  /\ c \in Live /\ conns[c].up
  /\ \/ /\ conns[c].st = "done" /\ Sends(conns[c].q[1], conns[c].a[1], r)
        /\ Upd(c, After(conns[c]))
     \/ /\ conns[c].st = "sent" /\ Refuses(conns[c].q[1], r)
        /\ Upd(c, After(conns[c]))
     \/ /\ conns[c].st = "junk" /\ Rejects(r)  \* an error response, then closed
        /\ Upd(c, [conns[c] EXCEPT !.st = "over"])
(* The server ends a connection: only if the peer has broken or closed it, or   *)
(* the answer cannot be sent.                                                  *)
MayEnd(cn) ==
  \/ cn.st \in {"junk", "over"}
  \/ cn.fin
  \/ cn.st = "done" /\ Lost(cn.q[1], cn.a[1])
ServerClose(c) ==
  /\ c \in Live /\ MayEnd(conns[c])
  /\ Upd(c, [conns[c] EXCEPT !.st = "over"])
(* Nothing but the responses counted above has been received.                   *)
Quiet(c, eof) ==
  /\ c \in Live
  /\ eof => MayEnd(conns[c])
  /\ UNCHANGED conns
(* Nothing more is going to happen without further input: complete requests have *)
(* been handled and answered, unless their peer is gone.                         *)
Rested(cn) ==
  \/ ~cn.up
  \/ cn.st \in {"idle", "part", "run", "junk", "over"}
  \/ cn.st = "done" /\ Lost(cn.q[1], cn.a[1])
Rest == (\A c \in Live : Rested(conns[c])) /\ UNCHANGED conns
=============================================================================
