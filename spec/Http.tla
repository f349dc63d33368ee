-------------------------------- MODULE Http --------------------------------
(* What the server has to do with a complete, well-formed request.            *)
EXTENDS Types, Route

(* A request: [method, target (octets), headers (pairs of octets), ...].       *)
(* A procedure: [method, entry, path (types), haspath, query, header           *)
(* (sequences of [n, t] or <<>>), hasquery, hasheader].                        *)

(* (Octet strings beyond 256 octets are recorded as digests which start with -1.) *)
HeaderText(b) == IF b # <<>> /\ b[1] = -1 THEN [k |-> "long", out |-> <<>>] ELSE
                 LET u == FromUtf8(b) IN
                 IF u.ok THEN [k |-> "text", out |-> u.out] ELSE [k |-> "bad", out |-> <<>>]

(* A field is given by the pairs whose decoded name is n.                       *)
GivenIn(pairs, n) == {i \in 1..Len(pairs) : pairs[i].k.k = "text" /\ pairs[i].k.out = n}
FieldOf(lits, f, pairs) ==
  LET g == GivenIn(pairs, f.n) IN
  IF Cardinality(g) > 1 THEN [v |-> "any", p |-> 0, x |-> <<>>]        \* repeated: unspecified
  ELSE IF g = {} THEN FieldVerdict(lits, f.t, FALSE, [k |-> "text", out |-> <<>>])
  ELSE FieldVerdict(lits, f.t, TRUE, pairs[CHOOSE i \in g : TRUE].v)
FieldsOf(lits, fields, pairs) ==
  [i \in 1..Len(fields) |-> FieldOf(lits, fields[i], pairs)]

(* Invalid UTF-8 in a query is replaced by U+FFFD according to the form encoding *)
(* standard, so strings are not determined by this specification; other types    *)
(* have no literal with U+FFFD.                                                  *)
QueryPairs(req) == FormPairs(QueryPart(req.target))
LossyStr(ty, fv, pairs, n) ==
  IF ty.t = "str" /\ \E i \in GivenIn(pairs, n) : pairs[i].v.k = "bad"
  THEN [fv EXCEPT !.v = "any"] ELSE fv
QueryFields(lits, p, req) ==
  LET pairs == QueryPairs(req) IN
  [i \in 1..Len(p.query) |->
     LossyStr(p.query[i].t, FieldOf(lits, p.query[i], pairs), pairs, p.query[i].n)]
HeaderPairs(req) ==
  [i \in 1..Len(req.headers) |->
     [k |-> HeaderText(LowerText(req.headers[i][1])), v |-> HeaderText(req.headers[i][2])]]

VarPositions(entry) == SelectSeq([i \in 1..Len(entry) |-> i], LAMBDA i : entry[i].k = "var")
PathFields(lits, p, segs) ==
  LET vars == VarPositions(p.entry) IN
  [i \in 1..Len(p.path) |-> FieldVerdict(lits, p.path[i], TRUE, segs[vars[i]])]

Verdicts(lits, p, req, segs) ==
  [path   |-> PathFields(lits, p, segs),
   query  |-> QueryFields(lits, p, req),
   header |-> FieldsOf(lits, p.header, HeaderPairs(req))]

AllIn(fs, S) == \A i \in 1..Len(fs) : fs[i].v \in S
ForAllFields(v, S) == AllIn(v.path, S) /\ AllIn(v.query, S) /\ AllIn(v.header, S)

(* The allowed reactions: `status` is the set of statuses of problem responses   *)
(* which are allowed, `may` tells if the handler of r may be invoked (then with   *)
(* values agreeing with v).                                                      *)
NoRun(S) == [may |-> FALSE, status |-> S]
Reaction(lits, regs, req) ==
  IF ~IsPlainTarget(req.target)
  THEN [may |-> TRUE, status |-> {400, 404, 405}, any |-> TRUE]
  ELSE
  LET raw  == RawSegments(req.target)
      segs == [i \in 1..Len(raw) |-> DecodeText(raw[i])]
  IN IF \E i \in 1..Len(segs) : segs[i].k = "odd"
     THEN [may |-> TRUE, status |-> {400, 404, 405}, any |-> TRUE]
     ELSE LET d == Dispatch(regs, req.method, segs) IN
          IF d.k = "none" THEN [may |-> FALSE, status |-> {d.status}, any |-> FALSE]
          ELSE LET v == Verdicts(lits, d.r.p, req, segs) IN
               IF ForAllFields(v, {"yes"})
               THEN [may |-> TRUE, status |-> {}, any |-> FALSE, r |-> d.r, v |-> v]
               ELSE IF ForAllFields(v, {"yes", "may", "any"})
               THEN [may |-> TRUE, status |-> {400}, any |-> FALSE, r |-> d.r, v |-> v]
               ELSE [may |-> FALSE, status |-> {400}, any |-> FALSE]

AllAgree(vs, vals) == Len(vs) = Len(vals) /\ \A i \in 1..Len(vs) : Agrees(vs[i], vals[i])
ValuesAgree(v, inv) == AllAgree(v.path, inv.path) /\ AllAgree(v.query, inv.query)
                       /\ AllAgree(v.header, inv.header)
=============================================================================
