------------------------------ MODULE CallTrace -----------------------------
(* Traces of calls made with the real client - to a real server, or to a raw    *)
(* one - checked against Call.tla, including what is seen on the wire.          *)
EXTENDS Message, Trace
VARIABLES calls, wired, wcur
tvars == <<t, l, calls, wired, wcur>>

(* Requests, invocations, answers and results are referred to by the position   *)
(* [t, l] of their events.                                                      *)
Here == [t |-> t, l |-> l]
E(r) == Traces[r.t].events[r.l]
P(r) == Traces[r.t].procs[E(r).proc + 1]
LitsOf(r) == Traces[r.t].lits

IsDotText(x) == x \in {<<46>>, <<46, 46>>}
HasBreak(x) == \E i \in 1..Len(x) : x[i] \in {9, 10, 13}
Empty1st(p, vals) ==   \* an empty first segment which is followed by others
  Len(p.entry) > 1 /\ p.entry[1].k = "var" /\ vals[1].x = <<>>
PathRefusable(p, vals) ==
  \/ \E i \in 1..Len(vals) : IsDotText(vals[i].x) \/ HasBreak(vals[i].x)
  \/ Len(vals) > 0 /\ Empty1st(p, vals)
TRefusable(q) == PathRefusable(P(q), E(q).path) \/ ~AllCarriable(E(q).header)

SameBody(p, body, got) == p.body = "all" => got = body
IsRawReq(i) == E(i).e = "sreq"
TDeliver(q, i) ==
  IF IsRawReq(i) THEN P(q).method = E(i).method /\ E(i).body = E(q).body
  ELSE /\ P(q).method = P(i).method /\ SameEntry(P(q).entry, P(i).entry)
       /\ E(i).path = E(q).path /\ E(i).query = E(q).query /\ E(i).header = E(q).header
       /\ SameBody(P(i), E(q).body, E(i).body)
IsRaw(a) == E(a).e = "reply"
TAnswers(i, a) == IF IsRaw(a) THEN IsRawReq(i) /\ E(i).tok = E(a).tok /\ E(i).conn = E(a).conn
                  ELSE ~IsRawReq(i) /\ E(i).proc = E(a).proc /\ E(i).tok = E(a).tok

ReadAs(q, m) == Reading(LitsOf(q), P(q), m)
ReadBody(p, m, r) == IF p.method = "HEAD" THEN r.body.n = 0 ELSE r.body = m.body
ReadsMessage(q, m, r) ==
  LET rd == ReadAs(q, m)  p == P(q) IN
  /\ rd.v # "no" /\ r.v = rd.n
  /\ (p.resp.k = "struct" => r.status = rd.st)
  /\ AllAgree(rd.fs, r.header)
  /\ IF rd.problem
     THEN (Len(m.problem) = 1 /\ m.problem[1].ok = 1 /\ p.method # "HEAD") => r.problem = m.problem
     ELSE ReadBody(p, m, r)

(* The caller and the handler have the same type: the same response.             *)
SameResponse(p, a, r) ==
  /\ r.v = a.v
  /\ (p.resp.k = "struct" => r.status = a.status)
  /\ r.header = a.header
  /\ IF Len(a.problem) = 1
     THEN Len(r.problem) = 1 /\ (p.method # "HEAD" => r.problem = a.problem)
     ELSE ReadBody(p, a, r)

(* As a message, the answer of a handler has its status and its header fields     *)
(* as canonical texts.                                                            *)
AsMessage(p, a) ==
  LET fs == AnswerFields(p, a)
      js == SelectSeq([i \in 1..Len(fs) |-> i], LAMBDA i : a.header[i].p = 1)
  IN [status |-> AnswerStatus(p, a), body |-> a.body, problem |-> a.problem,
      ctype |-> IF Len(a.problem) = 1 THEN ProblemType ELSE "",
      headers |-> [j \in 1..Len(js) |->
                     <<Utf8(fs[js[j]].n),
                       IF fs[js[j]].t.t = "const" THEN Utf8(fs[js[j]].t.c) ELSE Utf8(a.header[js[j]].x)>>]]
TReads(q, a, r) ==
  IF IsRaw(a) THEN E(a).full = 1 /\ E(a).kind = "resp" /\ ReadsMessage(q, E(a), E(r))
  ELSE IF E(a).proc = E(q).proc THEN SameResponse(P(q), E(a), E(r))
  ELSE ReadsMessage(q, AsMessage(P(a), E(a)), E(r))
TUnreadable(q, a) ==
  IF IsRaw(a) THEN E(a).full = 0 \/ E(a).kind # "resp" \/ ReadAs(q, E(a)).v # "yes"
  ELSE \/ ~Sendable(P(a), E(a))
       \/ E(a).proc # E(q).proc /\ ReadAs(q, AsMessage(P(a), E(a))).v # "yes"

C == INSTANCE Call WITH Deliver <- TDeliver, Refusable <- TRefusable, Answers <- TAnswers,
                        Reads <- TReads, Unreadable <- TUnreadable

Init == TInit /\ C!Init /\ wired = {} /\ wcur = <<>>
Keep == UNCHANGED <<wired, wcur>>

Register == Is("register") /\ Ev.ok = 1 /\ UNCHANGED <<calls, wired, wcur>>
Issue == Is("issue") /\ C!Issue(Ev.id, Here) /\ Keep
Invoke == Is("invoke") /\ (\E c \in C!Known : C!Invoke(c, Here)) /\ Keep
Answer == Is("answer") /\ (\E c \in C!Known : C!Answer(c, Here)) /\ Keep
(* A raw server: the request it gets and the reply it sends.  The token of a      *)
(* request is the call it belongs to.                                             *)
SReq == Is("sreq") /\ C!Invoke(Ev.tok, Here) /\ Keep
Reply == Is("reply") /\ C!Answer(Ev.tok, Here) /\ Keep
Ret == Is("ret") /\ (IF Ev.ok = 1 THEN C!Succeed(Ev.id, Here) ELSE C!Fail(Ev.id)) /\ Keep
(* The generator announces that the transport of a call is going to fail.         *)
Hurt == Is("hurt") /\ C!Hurt(Ev.id) /\ Keep
Cancel == Is("cancel") /\ C!Leave(Ev.id) /\ Keep
Pending == /\ Is("pending") /\ \A i \in 1..Len(Ev.ids) : C!Waiting(Ev.ids[i])
           /\ UNCHANGED <<calls, wired, wcur>>
(* A raw server closes: the exchange in progress cannot be completed any more.    *)
Broken(k) == Len(k.i) = 1 /\ IsRawReq(k.i[1]) /\ E(k.i[1]).conn = Ev.conn
             /\ (k.a = <<>> \/ E(k.a[1]).full = 0)
SClose ==
  /\ Is("sclose")
  /\ calls' = [c \in C!Known |-> IF Broken(calls[c]) THEN [calls[c] EXCEPT !.hurt = TRUE] ELSE calls[c]]
  /\ Keep

(* ---- the wire ----------------------------------------------------------------- *)
(* A request on the wire is that of one call: read by the rules of HTTP it gives   *)
(* exactly the values of the call, and nothing else.                               *)
AsReg(q) == [method |-> P(q).method, entry |-> P(q).entry, p |-> P(q), n |-> E(q).proc, owner |-> 0]
Present(vals) == {i \in 1..Len(vals) : vals[i].p = 1}
LongText(x) == x # <<>> /\ x[1] = -1
AnyLong(vals) == \E i \in 1..Len(vals) : LongText(vals[i].x)
WireRequest(q, w) ==
  LET p == P(q)  e == E(q) IN
  /\ w.method = p.method /\ w.ver = "HTTP/1.1"
  /\ w.cl = <<e.body.n>> /\ w.body = e.body
  /\ CarriesAll(p.header, e.header, w.headers)
  /\ Len(w.headers) = Cardinality(Present(e.header)) + 1
  /\ \/ LongText(w.target)
     \/ AnyLong(e.path) \/ AnyLong(e.query)
     \/ /\ IsPlainTarget(w.target)
        /\ LET re == Reaction(LitsOf(q), {AsReg(q)}, w) IN
           /\ re.may /\ ~re.any
           /\ AllAgree(re.v.path, e.path) /\ AllAgree(re.v.query, e.query)
        /\ Len(QueryPairs(w)) = Cardinality(Present(e.query))
(* Calls which give the same request are interchangeable: the earliest one is taken. *)
WReq ==
  /\ Is("wreq")
  /\ LET fit == {c \in C!Known \ wired : calls[c].i # <<>> /\ WireRequest(calls[c].q, Ev)} IN
     /\ fit # {}
     /\ LET c == CHOOSE c \in fit : \A d \in fit : calls[c].q.l <= calls[d].q.l
        IN wired' = wired \cup {c} /\ wcur' = <<c>>
  /\ UNCHANGED calls
WResp ==
  /\ Is("wresp") /\ wcur # <<>>
  /\ LET k == calls[wcur[1]] IN
     /\ k.a # <<>> /\ ~IsRaw(k.a[1])
     /\ Conveys(P(k.a[1]), E(k.a[1]), Ev, P(k.q).method)
  /\ wcur' = <<>> /\ UNCHANGED <<calls, wired>>
WEnd == Is("wend") /\ Ev.up = 0 /\ Ev.down = 0 /\ UNCHANGED <<calls, wired, wcur>>
Skip == (\E e \in {"tick", "note", "saccept", "sclosed", "net", "pool", "quiet"} : Is(e)) /\ UNCHANGED <<calls, wired, wcur>>
Release == Is("release") /\ Ev.ok = 1 /\ UNCHANGED <<calls, wired, wcur>>

Next == Register \/ Issue \/ Invoke \/ Answer \/ SReq \/ Reply \/ Ret \/ Hurt \/ Cancel \/ Pending
        \/ SClose \/ WReq \/ WResp \/ WEnd \/ Skip \/ Release
Spec == Init /\ [][Next]_tvars
=============================================================================
