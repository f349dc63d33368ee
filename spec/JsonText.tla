------------------------------- MODULE JsonText ------------------------------
(* JSON texts (RFC 8259) as sequences of code points, read into trees.          *)
(* A tree is a record [t, x, e]: t the kind of node ("null", "bool", "num",     *)
(* "str", "arr", "obj", "pair"), x its text, e its parts.                       *)
EXTENDS Text

Node(k, x, e) == [t |-> k, x |-> x, e |-> e]
MaxDepth == 100

(* -------- tokens ------------------------------------------------------------- *)
IsSpace(c) == c \in {32, 9, 10, 13}
IsWord(c) == IsDigit(c) \/ IsAlpha(c) \/ c \in {43, 45, 46}
IsPunct(c) == c \in {91, 93, 123, 125, 44, 58}
EscapeOf(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
                 [] c \in {34, 92, 47} -> c [] OTHER -> -1
LexStart == [ok |-> TRUE, odd |-> FALSE, m |-> "v", buf |-> <<>>, toks |-> <<>>, u |-> 0, n |-> 0, hi |-> 0]
Put(a, c) ==   \* appends a character of a string; a pending leading surrogate is lonely
  [a EXCEPT !.m = "s", !.buf = Append(@, c), !.odd = @ \/ a.hi # 0, !.hi = 0]
Unit(a, v) ==
  IF a.hi # 0 /\ v \in 56320..57343
  THEN [a EXCEPT !.m = "s", !.hi = 0, !.buf = Append(@, 65536 + (a.hi - 55296) * 1024 + (v - 56320))]
  ELSE IF v \in 55296..56319 THEN [a EXCEPT !.m = "s", !.odd = @ \/ a.hi # 0, !.hi = v]
  ELSE IF v \in 56320..57343 THEN [a EXCEPT !.m = "s", !.odd = TRUE, !.hi = 0]
  ELSE Put(a, v)
Between(a, c) ==
  IF IsSpace(c) THEN a
  ELSE IF IsPunct(c) THEN [a EXCEPT !.toks = Append(@, [k |-> "p", x |-> <<c>>])]
  ELSE IF c = 34 THEN [a EXCEPT !.m = "s", !.buf = <<>>]
  ELSE IF IsWord(c) THEN [a EXCEPT !.m = "w", !.buf = <<c>>]
  ELSE [a EXCEPT !.ok = FALSE]
EndWord(a) == [a EXCEPT !.m = "v", !.buf = <<>>, !.toks = Append(@, [k |-> "w", x |-> a.buf])]
LexStep(a, c) ==
  IF ~a.ok THEN a
  ELSE CASE a.m = "v" -> Between(a, c)
         [] a.m = "w" -> IF IsWord(c) THEN [a EXCEPT !.buf = Append(@, c)] ELSE Between(EndWord(a), c)
         [] a.m = "s" ->
              IF c = 34 THEN [a EXCEPT !.m = "v", !.buf = <<>>, !.odd = @ \/ a.hi # 0, !.hi = 0,
                                       !.toks = Append(@, [k |-> "s", x |-> a.buf])]
              ELSE IF c = 92 THEN [a EXCEPT !.m = "e"]
              ELSE IF c < 32 THEN [a EXCEPT !.ok = FALSE]
              ELSE Put(a, c)
         [] a.m = "e" ->
              IF c = 117 THEN [a EXCEPT !.m = "u", !.u = 0, !.n = 0]
              ELSE IF EscapeOf(c) = -1 THEN [a EXCEPT !.ok = FALSE]
              ELSE Put(a, EscapeOf(c))
         [] OTHER ->
              IF ~IsHex(c) THEN [a EXCEPT !.ok = FALSE]
              ELSE IF a.n < 3 THEN [a EXCEPT !.u = @ * 16 + HexVal(c), !.n = @ + 1]
              ELSE Unit(a, a.u * 16 + HexVal(c))
Lex(s) ==
  LET r == FoldLeft(LexStep, LexStart, s)
      f == IF r.ok /\ r.m = "w" THEN EndWord(r) ELSE r
  IN [ok |-> f.ok /\ f.m = "v", odd |-> f.odd, toks |-> f.toks]

(* -------- numbers ------------------------------------------------------------- *)
NumStep(m, c) ==
  CASE m = "start" -> IF c = 45 THEN "minus" ELSE IF c = 48 THEN "zero" ELSE IF IsDigit(c) THEN "int" ELSE "no"
    [] m = "minus" -> IF c = 48 THEN "zero" ELSE IF IsDigit(c) THEN "int" ELSE "no"
    [] m = "zero" -> IF c = 46 THEN "dot" ELSE IF c \in {69, 101} THEN "exp" ELSE "no"
    [] m = "int" -> IF IsDigit(c) THEN "int" ELSE IF c = 46 THEN "dot" ELSE IF c \in {69, 101} THEN "exp" ELSE "no"
    [] m = "dot" -> IF IsDigit(c) THEN "frac" ELSE "no"
    [] m = "frac" -> IF IsDigit(c) THEN "frac" ELSE IF c \in {69, 101} THEN "exp" ELSE "no"
    [] m = "exp" -> IF c \in {43, 45} THEN "sign" ELSE IF IsDigit(c) THEN "pow" ELSE "no"
    [] m = "sign" -> IF IsDigit(c) THEN "pow" ELSE "no"
    [] m = "pow" -> IF IsDigit(c) THEN "pow" ELSE "no"
    [] OTHER -> "no"
NumEnd(w) == FoldLeft(NumStep, "start", w)
IsNumber(w) == NumEnd(w) \in {"zero", "int", "frac", "pow"}
(* Numerals of integers; -0 is none of them.                                     *)
IsIntWord(w) == NumEnd(w) \in {"zero", "int"} /\ w # <<45, 48>>

Null == <<110, 117, 108, 108>>
JTrue  == <<116, 114, 117, 101>>
JFalse == <<102, 97, 108, 115, 101>>
IsScalarTok(k) == k.k = "s" \/ (k.k = "w" /\ (k.x \in {Null, JTrue, JFalse} \/ IsNumber(k.x)))
ScalarOf(k) ==
  IF k.k = "s" THEN Node("str", k.x, <<>>)
  ELSE IF k.x = Null THEN Node("null", <<>>, <<>>)
  ELSE IF k.x \in {JTrue, JFalse} THEN Node("bool", k.x, <<>>)
  ELSE Node("num", k.x, <<>>)

(* -------- the grammar: a stack of open arrays and objects ---------------------- *)
(* ex: what is expected next.                                                      *)
ParseStart == [ok |-> TRUE, odd |-> FALSE, st |-> <<>>, root |-> <<>>, ex |-> "val"]
Top(a) == a.st[Len(a.st)]
Pop(a) == SubSeq(a.st, 1, Len(a.st) - 1)
Bad(a) == [a EXCEPT !.ok = FALSE]
Complete(a, node) ==     \* a value has been read
  IF a.st = <<>> THEN [a EXCEPT !.root = <<node>>, !.ex = "done"]
  ELSE LET f == Top(a)
           part == IF f.t = "obj" THEN Node("pair", f.x, <<node>>) ELSE node
       IN [a EXCEPT !.st = Append(Pop(a), [f EXCEPT !.e = Append(@, part)]), !.ex = "sep"]
Enter(a, kind) == [a EXCEPT !.st = Append(@, Node(kind, <<>>, <<>>)), !.odd = @ \/ Len(a.st) >= MaxDepth,
                            !.ex = IF kind = "arr" THEN "valend" ELSE "keyend"]
Leave(a) == LET f == Top(a) IN Complete([a EXCEPT !.st = Pop(a)], Node(f.t, <<>>, f.e))
Punct(k, c) == k.k = "p" /\ k.x = <<c>>
TakeVal(a, k) ==
  IF IsScalarTok(k) THEN Complete(a, ScalarOf(k))
  ELSE IF Punct(k, 91) THEN Enter(a, "arr")
  ELSE IF Punct(k, 123) THEN Enter(a, "obj")
  ELSE Bad(a)
ParseStep(a, k) ==
  IF ~a.ok THEN a
  ELSE CASE a.ex = "val" -> TakeVal(a, k)
         [] a.ex = "valend" -> IF Punct(k, 93) THEN Leave(a) ELSE TakeVal(a, k)
         [] a.ex \in {"keyend", "key"} ->
              IF k.k = "s" THEN [a EXCEPT !.st = Append(Pop(a), [Top(a) EXCEPT !.x = k.x]), !.ex = "colon"]
              ELSE IF a.ex = "keyend" /\ Punct(k, 125) THEN Leave(a) ELSE Bad(a)
         [] a.ex = "colon" -> IF Punct(k, 58) THEN [a EXCEPT !.ex = "val"] ELSE Bad(a)
         [] a.ex = "sep" ->
              IF Punct(k, 44) THEN [a EXCEPT !.ex = IF Top(a).t = "obj" THEN "key" ELSE "val"]
              ELSE IF Top(a).t = "obj" /\ Punct(k, 125) THEN Leave(a)
              ELSE IF Top(a).t = "arr" /\ Punct(k, 93) THEN Leave(a) ELSE Bad(a)
         [] OTHER -> Bad(a)
(* [ok, odd, root]: odd for texts with lone surrogates or deep nesting, which     *)
(* readers may refuse.                                                            *)
JsonParse(s) ==
  LET x == Lex(s) IN
  IF ~x.ok THEN [ok |-> FALSE, odd |-> x.odd, root |-> <<>>]
  ELSE LET p == FoldLeft(ParseStep, ParseStart, x.toks)
       IN [ok |-> p.ok /\ p.ex = "done", odd |-> x.odd \/ p.odd, root |-> p.root]

(* -------- the canonical text of a tree -------------------------------------------- *)
(* No white space, members sorted by name (the last of equal names counts), and only  *)
(* the necessary escapes.  [ok, x]; ok is FALSE if it contains numbers which have no   *)
(* evident canonical numeral.                                                         *)
HexLower(n) == IF n < 10 THEN 48 + n ELSE 87 + n
QuotedChar(c) ==
  CASE c = 34 -> <<92, 34>> [] c = 92 -> <<92, 92>> [] c = 8 -> <<92, 98>> [] c = 9 -> <<92, 116>>
    [] c = 10 -> <<92, 110>> [] c = 12 -> <<92, 102>> [] c = 13 -> <<92, 114>>
    [] c < 32 -> <<92, 117, 48, 48, HexLower(c \div 16), HexLower(c % 16)>>
    [] OTHER -> <<c>>
Quoted(s) == <<34>> \o FoldLeft(LAMBDA a, c : a \o QuotedChar(c), <<>>, s) \o <<34>>
PlainInt(w) == IsIntWord(w) /\ Len(w) <= 18
Fraction(w) == LET i == Find(w, 46) IN After(w, i)
PlainDecimal(w) ==
  /\ NumEnd(w) = "frac" /\ Find(w, 69) = 0 /\ Find(w, 101) = 0 /\ Len(w) <= 15
  /\ LET f == Fraction(w) IN (f = <<48>> \/ f[Len(f)] # 48) /\ (Len(f) > 3 => ~\A i \in 1..4 : f[i] = 48)
  /\ w # <<45, 48, 46, 48>>
TextLess(a, b) ==
  \/ \E i \in 1..Len(a) : i <= Len(b) /\ a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
  \/ Len(a) < Len(b) /\ \A j \in 1..Len(a) : a[j] = b[j]
Members(e) ==      \* the positions of the members which count, sorted by name
  SortSeq(SelectSeq([i \in 1..Len(e) |-> i], LAMBDA i : \A j \in (i + 1)..Len(e) : e[j].x # e[i].x),
          LAMBDA i, j : TextLess(e[i].x, e[j].x))
Joined(seqs) == FoldLeft(LAMBDA a, s : IF a = <<>> THEN s ELSE a \o <<44>> \o s, <<>>, seqs)
RECURSIVE Canonical(_)
Canonical(n) ==
  LET Parts == [i \in 1..Len(n.e) |-> Canonical(n.e[i])]
      Fine == \A i \in 1..Len(Parts) : Parts[i].ok
  IN CASE n.t = "null" -> [ok |-> TRUE, x |-> Null]
       [] n.t = "bool" -> [ok |-> TRUE, x |-> n.x]
       [] n.t = "num"  -> [ok |-> PlainInt(n.x) \/ PlainDecimal(n.x), x |-> n.x]
       [] n.t = "str"  -> [ok |-> TRUE, x |-> Quoted(n.x)]
       [] n.t = "pair" -> LET v == Canonical(n.e[1]) IN [ok |-> v.ok, x |-> Quoted(n.x) \o <<58>> \o v.x]
       [] n.t = "arr"  -> [ok |-> Fine, x |-> <<91>> \o Joined([i \in 1..Len(Parts) |-> Parts[i].x]) \o <<93>>]
       [] OTHER -> LET ms == Members(n.e) IN
                   [ok |-> Fine, x |-> <<123>> \o Joined([i \in 1..Len(ms) |-> Parts[ms[i]].x]) \o <<125>>]
(* The verdict on a text as a literal of an arbitrary JSON value.                      *)
JsonLiteral(s) ==
  LET p == JsonParse(s) IN
  IF p.odd THEN [v |-> "any", x |-> <<>>]
  ELSE IF ~p.ok THEN [v |-> "no", x |-> <<>>]
  ELSE LET c == Canonical(p.root[1])
       IN IF c.ok THEN [v |-> "yes", x |-> c.x] ELSE [v |-> "any", x |-> <<>>]
=============================================================================
