-------------------------------- MODULE Helper -------------------------------
(* The field helpers: values of arbitrary (serializable) types inside JSON and   *)
(* MessagePack documents, with fields which carry a value as a text or as octets *)
(* of their own.                                                                 *)
(*                                                                               *)
(* A type is [k, n, of, names]; k is                                             *)
(*   "bool", "int" (n: the integer type), "float", "str", "char", "unit",        *)
(*   "opt", "new", "seq", "tup", "map" (texts to of[1]), "any" (arbitrary JSON),  *)
(*   "struct" (names, of), "enum" (names, of; k = "none" for unit variants),     *)
(*   "help" (n: "json", "jsonp" or "msgpack"; of[1]: what is carried).           *)
(* A value is a tree as in JsonText, with "int", "float" and "var" (x: variant,   *)
(* e: its content); the members of objects are sorted for "map" and "any", and   *)
(* are in the declared order for "struct".                                       *)
EXTENDS Types
M == INSTANCE MsgPack

(* Verdicts "yes" (has to be accepted), "no" (has to be refused), "may".          *)
Worst(vs) == IF "no" \in vs THEN "no" ELSE IF "may" \in vs THEN "may" ELSE "yes"
Texts(e, x) == {i \in 1..Len(e) : e[i].x = x}
IsByteNode(n) == n.t \in {"num", "int"} /\ IntLiteral("u8", n.x).v = "yes"
IsBytes(n) == n.t = "bin" \/ (n.t = "arr" /\ \A i \in 1..Len(n.e) : IsByteNode(n.e[i]))
ByteOf(n) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, n.x)
BytesOf(n) == IF n.t = "bin" THEN n.x ELSE [i \in 1..Len(n.e) |-> ByteOf(n.e[i])]
(* The document inside a helper field: [ok, odd, root], and its format.           *)
Inner(kind, n) == IF kind = "msgpack" THEN M!MpParse(BytesOf(n)) ELSE J!JsonParse(n.x)
InnerFmt(kind) == IF kind = "msgpack" THEN "m" ELSE "j"
IsCarrier(kind, n) == IF kind = "msgpack" THEN IsBytes(n) ELSE n.t = "str"
MaybeCarrier(kind, n) == kind # "msgpack" /\ n.t = "bin"
VarIndex(ty, x) == CHOOSE i \in 1..Len(ty.names) : ty.names[i] = x
HasVar(ty, x) == \E i \in 1..Len(ty.names) : ty.names[i] = x

(* Does the tree n of a document (f = "j": JSON, "m": MessagePack) encode a value  *)
(* of type ty?                                                                     *)
RECURSIVE Fit(_, _, _)
Fit(f, ty, n) ==
  LET All(t1) == Worst({Fit(f, t1, n.e[i]) : i \in 1..Len(n.e)} \cup {"yes"})
      Each(ts) == Worst({Fit(f, ts[i], n.e[i]) : i \in 1..Len(ts)} \cup {"yes"})
  IN CASE ty.k = "bool" -> IF n.t = "bool" THEN "yes" ELSE "no"
       [] ty.k = "int" ->
            IF n.t = "int" \/ (n.t = "num" /\ J!IsIntWord(n.x)) THEN IntLiteral(ty.n, n.x).v
            ELSE IF n.t \in {"num", "float"} THEN "may" ELSE "no"
       [] ty.k = "float" ->
            IF n.t = "num" THEN IF Len(n.x) <= 17 /\ Find(n.x, 69) = 0 /\ Find(n.x, 101) = 0 THEN "yes" ELSE "may"
            ELSE IF n.t = "float" THEN "yes" ELSE IF n.t = "int" THEN "may" ELSE "no"
       [] ty.k = "str" -> IF n.t = "str" THEN "yes" ELSE IF n.t = "bin" THEN "may" ELSE "no"
       [] ty.k = "char" -> IF n.t = "str" /\ Len(n.x) = 1 THEN "yes" ELSE IF n.t = "bin" THEN "may" ELSE "no"
       [] ty.k = "unit" -> IF n.t = "null" THEN "yes" ELSE IF f = "m" /\ n.t = "arr" THEN "may" ELSE "no"
       [] ty.k = "any" -> IF f = "m" THEN "may" ELSE "yes"
       [] ty.k = "opt" -> IF n.t = "null" THEN "yes" ELSE Fit(f, ty.of[1], n)
       [] ty.k = "new" ->
            IF f = "m" THEN IF Fit(f, ty.of[1], n) # "no" THEN "may"
                            ELSE IF n.t = "arr" /\ Len(n.e) >= 1 /\ Fit(f, ty.of[1], n.e[1]) # "no" THEN "may" ELSE "no"
            ELSE Fit(f, ty.of[1], n)
       [] ty.k = "seq" -> IF n.t = "arr" THEN All(ty.of[1]) ELSE IF n.t = "bin" THEN "may" ELSE "no"
       [] ty.k = "tup" ->
            IF n.t = "bin" THEN "may"
            ELSE IF n.t # "arr" \/ Len(n.e) < Len(ty.of) THEN "no"
            ELSE IF Len(n.e) > Len(ty.of) THEN IF f = "m" THEN "may" ELSE "no"
            ELSE Each(ty.of)
       [] ty.k = "map" ->
            IF n.t = "obj" THEN Worst({Fit(f, ty.of[1], n.e[i].e[1]) : i \in 1..Len(n.e)} \cup {"yes"})
            ELSE IF n.t = "map"
                 THEN IF \E i \in 1..Len(n.e) : n.e[i].e[1].t \notin {"str", "bin"} THEN "no"
                      ELSE Worst({Fit(f, ty.of[1], n.e[i].e[2]) : i \in 1..Len(n.e)}
                                 \cup {IF n.e[i].e[1].t = "bin" THEN "may" ELSE "yes" : i \in 1..Len(n.e)} \cup {"yes"})
            ELSE "no"
       [] ty.k = "struct" ->
            IF n.t = "obj"
            THEN Worst({LET js == Texts(n.e, ty.names[i]) IN
                        IF js = {} THEN IF ty.of[i].k = "opt" THEN "yes" ELSE "no"
                        ELSE IF Cardinality(js) > 1 THEN "no"
                        ELSE Fit(f, ty.of[i], n.e[CHOOSE j \in js : TRUE].e[1]) : i \in 1..Len(ty.names)} \cup {"yes"})
            ELSE IF n.t = "arr" /\ f = "j" THEN "may"
            ELSE IF n.t = "arr" /\ Len(n.e) = Len(ty.of) THEN Each(ty.of)
            ELSE IF n.t = "arr" /\ Len(n.e) < Len(ty.of) THEN "no"
            ELSE IF n.t \in {"map", "arr", "bin"} THEN "may" ELSE "no"
       [] ty.k = "enum" ->
            IF f = "m" THEN IF n.t \in {"bool", "null", "float"} THEN "no" ELSE "may"
            ELSE IF n.t = "str"
                 THEN IF ~HasVar(ty, n.x) THEN "no"
                      ELSE IF ty.of[VarIndex(ty, n.x)].k = "none" THEN "yes" ELSE "no"
            ELSE IF n.t = "obj" /\ Len(n.e) = 1
                 THEN IF ~HasVar(ty, n.e[1].x) THEN "no"
                      ELSE LET c == ty.of[VarIndex(ty, n.e[1].x)] IN
                           IF c.k = "none" THEN IF n.e[1].e[1].t = "null" THEN "may" ELSE "no"
                           ELSE Fit(f, c, n.e[1].e[1])
            ELSE "no"
       [] OTHER ->       \* "help"
            IF MaybeCarrier(ty.n, n) THEN "may"
            ELSE IF ~IsCarrier(ty.n, n) THEN "no"
            ELSE LET p == Inner(ty.n, n) IN
                 IF ~p.ok THEN IF p.odd THEN "may" ELSE "no"
                 ELSE LET v == Fit(InnerFmt(ty.n), ty.of[1], p.root[1])
                      IN IF p.odd /\ v = "yes" THEN "may" ELSE v

(* A numeral of a number which is not an integer: its value, as far as known.       *)
HexText(b) == FoldLeft(LAMBDA a, c : a \o <<J!HexLower(c \div 16), J!HexLower(c % 16)>>, <<102, 58>>, b)
FloatMatches(lits, tn, n, v) ==
  /\ v.t = "float"
  /\ n.t = "num" => LET r == Tabled(lits, tn, n.x) IN r.v = "yes" => v.x = r.x
  /\ (n.t = "float" /\ Len(n.x) = (IF tn = "f32" THEN 4 ELSE 8) /\ n.x[1] % 128 # 127) => v.x = HexText(n.x)
(* Is v the value which the tree n encodes?  (Only asked if Fit is not "no".)       *)
RECURSIVE Match(_, _, _, _, _)
Match(lits, f, ty, n, v) ==
  LET Go(t1, a, b) == Match(lits, f, t1, a, b)
      Lists(ts) == v.t = "arr" /\ Len(v.e) = Len(ts) /\ \A i \in 1..Len(ts) : Go(ts[i], n.e[i], v.e[i])
  IN CASE ty.k = "bool" -> v.t = "bool" /\ v.x = n.x
       [] ty.k = "int" -> v.t = "int" /\ ((n.t = "int" \/ (n.t = "num" /\ J!IsIntWord(n.x))) => v.x = IntLiteral(ty.n, n.x).x)
       [] ty.k = "float" -> FloatMatches(lits, ty.n, n, v)
       [] ty.k \in {"str", "char"} -> v.t = "str" /\ (n.t = "str" => v.x = n.x)
       [] ty.k = "unit" -> v.t = "null"
       [] ty.k = "any" ->
            IF f = "m" THEN TRUE
            ELSE IF n.t = "num" THEN IF J!IsIntWord(n.x) /\ Len(n.x) <= 18 THEN v.t = "int" /\ v.x = n.x
                                     ELSE v.t \in {"int", "float"} /\ (v.t = "int" => v.x = n.x)
                                          /\ (v.t = "float" => FloatMatches(lits, "f64", n, v))
            ELSE IF n.t = "arr" THEN v.t = "arr" /\ Len(v.e) = Len(n.e) /\ \A i \in 1..Len(n.e) : Go(ty, n.e[i], v.e[i])
            ELSE IF n.t = "obj"
                 THEN LET ms == J!Members(n.e) IN
                      /\ v.t = "obj" /\ Len(v.e) = Len(ms)
                      /\ \A i \in 1..Len(ms) : v.e[i].x = n.e[ms[i]].x /\ Go(ty, n.e[ms[i]].e[1], v.e[i].e[1])
            ELSE v.t = n.t /\ v.x = n.x
       [] ty.k = "opt" -> IF n.t = "null" THEN v.t = "null" ELSE Go(ty.of[1], n, v)
       [] ty.k = "new" ->
            \/ Fit(f, ty.of[1], n) # "no" /\ Go(ty.of[1], n, v)
            \/ f = "m" /\ n.t = "arr" /\ Len(n.e) >= 1 /\ Fit(f, ty.of[1], n.e[1]) # "no" /\ Go(ty.of[1], n.e[1], v)
       [] ty.k = "seq" -> v.t = "arr" /\ (n.t = "arr" => Len(v.e) = Len(n.e)
                                          /\ \A i \in 1..Len(n.e) : Go(ty.of[1], n.e[i], v.e[i]))
       [] ty.k = "tup" -> n.t = "arr" => Lists(ty.of)
       [] ty.k = "map" ->
            LET es == IF n.t = "obj" THEN n.e
                      ELSE [i \in 1..Len(n.e) |-> J!Node("pair", n.e[i].e[1].x, <<n.e[i].e[2]>>)]
                ms == J!Members(es) IN
            \/ n.t = "map" /\ \E i \in 1..Len(n.e) : n.e[i].e[1].t = "bin"
            \/ /\ v.t = "obj" /\ Len(v.e) = Len(ms)
               /\ \A i \in 1..Len(ms) : v.e[i].x = es[ms[i]].x /\ Go(ty.of[1], es[ms[i]].e[1], v.e[i].e[1])
       [] ty.k = "struct" ->
            IF n.t = "obj"
            THEN /\ v.t = "obj" /\ Len(v.e) = Len(ty.names)
                 /\ \A i \in 1..Len(ty.names) :
                      LET js == Texts(n.e, ty.names[i]) IN
                      /\ v.e[i].x = ty.names[i]
                      /\ IF js = {} THEN v.e[i].e[1].t = "null"
                         ELSE Go(ty.of[i], n.e[CHOOSE j \in js : TRUE].e[1], v.e[i].e[1])
            ELSE IF n.t = "arr" /\ Len(n.e) = Len(ty.of)
            THEN /\ v.t = "obj" /\ Len(v.e) = Len(ty.of)
                 /\ \A i \in 1..Len(ty.of) : v.e[i].x = ty.names[i] /\ Go(ty.of[i], n.e[i], v.e[i].e[1])
            ELSE v.t = "obj"
       [] ty.k = "enum" ->
            IF f = "m" THEN v.t = "var" /\ HasVar(ty, v.x)
            ELSE IF n.t = "str" THEN v.t = "var" /\ v.x = n.x /\ v.e = <<>>
            ELSE /\ v.t = "var" /\ v.x = n.e[1].x
                 /\ LET c == ty.of[VarIndex(ty, n.e[1].x)] IN
                    IF c.k = "none" THEN v.e = <<>> ELSE Len(v.e) = 1 /\ Go(c, n.e[1].e[1], v.e[1])
       [] OTHER ->
            IF ~IsCarrier(ty.n, n) THEN TRUE
            ELSE LET p == Inner(ty.n, n) IN
                 p.ok => Match(lits, InnerFmt(ty.n), ty.of[1], p.root[1], v)

(* A whole document.                                                                *)
DocParse(f, doc) == IF f = "m" THEN M!MpParse(doc) ELSE J!JsonParse(doc)
DocFit(f, ty, doc) ==
  LET p == DocParse(f, doc) IN
  IF ~p.ok THEN IF p.odd THEN "may" ELSE "no"
  ELSE LET v == Fit(f, ty, p.root[1]) IN IF p.odd THEN "may" ELSE v
DocMatch(lits, f, ty, doc, v) == LET p == DocParse(f, doc) IN p.ok => Match(lits, f, ty, p.root[1], v)
=============================================================================
