------------------------------- MODULE Message ------------------------------
(* Responses: what a handler answers and how a response on the wire (or one    *)
(* returned to a caller) has to look for it.                                   *)
EXTENDS Http, Status

(* The response type of a procedure: p.resp = [k, header, variants] with        *)
(*   k = "struct": a numeric status and the header fields `header`;             *)
(*   k = "problem": a problem response;                                        *)
(*   k = "enum": a sequence of variants [n, s, header], s = "unit" | "struct" | *)
(*               "problem" | "inner".                                          *)
(* An answer: [v (variant name or ""), status, header (values), body, problem].*)

VariantOf(p, n) == p.resp.variants[CHOOSE i \in 1..Len(p.resp.variants) : p.resp.variants[i].n = n]
Declares(p, n) == \E i \in 1..Len(p.resp.variants) : p.resp.variants[i].n = n

AnswerStatus(p, a) ==
  IF p.resp.k = "enum" THEN CodeOf[a.v]
  ELSE IF p.resp.k = "problem" THEN a.problem[1].status
  ELSE a.status
AnswerFields(p, a) ==
  IF p.resp.k = "enum" THEN VariantOf(p, a.v).header
  ELSE IF p.resp.k = "problem" THEN <<>> ELSE p.resp.header

(* Field i of the message headers carries exactly the given value.             *)
NamedHeaders(headers, n) == {j \in 1..Len(headers) : LowerText(headers[j][1]) = n}
Carries(f, val, headers) ==
  LET js == NamedHeaders(headers, f.n) IN
  IF val.p = 0 THEN js = {}
  ELSE /\ Cardinality(js) = 1
       /\ LET d == HeaderText(headers[CHOOSE j \in js : TRUE][2])
              r == LiteralOf(<<>>, f.t, d)
          IN \/ r.v = "any"
             \/ r.v = "yes" /\ r.x = val.x
             \/ val.x # <<>> /\ val.x[1] = -1          \* long texts are logged as digests
CarriesAll(fields, vals, headers) ==
  /\ Len(fields) = Len(vals)
  /\ \A i \in 1..Len(fields) : Carries(fields[i], vals[i], headers)

(* Can HTTP carry the value of a header field at all?                          *)
ValueCarriable(val) == val.p = 0 \/ CarriableHeader(val.x) \/ (val.x # <<>> /\ val.x[1] = -1)
AllCarriable(vals) == \A i \in 1..Len(vals) : ValueCarriable(vals[i])
(* Can the answer be sent at all?  (Statuses which are not registered may fail.)  *)
Sendable(p, a) == AllCarriable(a.header) /\ AnswerStatus(p, a) \in Codes

(* Framing: the announced length is that of the body `b`; nothing follows a     *)
(* response to HEAD.                                                           *)
Framed(r, b, method) ==
  /\ r.cl = <<b.n>>
  /\ IF method = "HEAD" THEN r.body.n = 0 ELSE r.body = b

ProblemType == "application/problem+json"
IsProblemDoc(r) ==
  /\ r.ctype = ProblemType
  /\ Len(r.problem) = 1
  /\ r.problem[1].ok = 1 /\ r.problem[1].status = r.status
  /\ r.problem[1].type # "?" /\ r.problem[1].title # <<-2>>
(* A problem response of the server itself. *)
OwnProblem(r, statuses, method) ==
  /\ r.status \in statuses
  /\ r.ctype = ProblemType
  /\ Len(r.cl) = 1 /\ r.cl[1] > 0
  /\ IF method = "HEAD" THEN r.body.n = 0 ELSE r.cl = <<r.body.n>> /\ IsProblemDoc(r)

(* The response r on the wire conveys the answer a of procedure p.              *)
Conveys(p, a, r, method) ==
  /\ r.status = AnswerStatus(p, a)
  /\ IF Len(a.problem) = 1
     THEN /\ r.ctype = ProblemType
          /\ Len(r.cl) = 1 /\ r.cl[1] > 0
          /\ IF method = "HEAD" THEN r.body.n = 0
             ELSE r.cl = <<r.body.n>> /\ IsProblemDoc(r) /\ r.problem = a.problem
     ELSE /\ CarriesAll(AnswerFields(p, a), a.header, r.headers)
          /\ Framed(r, a.body, method)

(* How the caller's type reads a message m = [status, headers, body, ctype,      *)
(* problem]: "no" if it has to fail.                                             *)
Named(p, code) == {n \in VariantNames : CodeOf[n] = code /\ Declares(p, n)}
ProblemReadable(m) == m.ctype = ProblemType
Verdict(fs) == IF AllIn(fs, {"yes"}) THEN "yes" ELSE IF AllIn(fs, {"yes", "may", "any"}) THEN "may" ELSE "no"
Reading(lits, p, m) ==
  LET Fields(fields) == FieldsOf(lits, fields, HeaderPairs(m)) IN
  CASE p.resp.k = "struct" ->
         LET fs == Fields(p.resp.header)
         IN [v |-> Verdict(fs), n |-> "", fs |-> fs, problem |-> FALSE, st |-> m.status]
    [] p.resp.k = "problem" ->
         [v |-> IF ProblemReadable(m) THEN "yes" ELSE "no", n |-> "", fs |-> <<>>, problem |-> TRUE, st |-> 0]
    [] OTHER ->
         IF Named(p, m.status) = {}
         THEN [v |-> "no", n |-> "", fs |-> <<>>, problem |-> FALSE, st |-> 0]
         ELSE LET n == CHOOSE n \in Named(p, m.status) : TRUE
                  va == VariantOf(p, n)
                  fs == Fields(va.header)
              IN IF va.s = "problem"
                 THEN [v |-> IF ProblemReadable(m) THEN "yes" ELSE "no", n |-> n, fs |-> <<>>,
                       problem |-> TRUE, st |-> 0]
                 ELSE [v |-> Verdict(fs), n |-> n, fs |-> fs, problem |-> FALSE, st |-> 0]
=============================================================================
