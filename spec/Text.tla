-------------------------------- MODULE Text --------------------------------
(* Texts are sequences of Unicode code points, octet strings are sequences   *)
(* of numbers 0..255.  This module specifies the encodings by which HTTP     *)
(* messages carry them: UTF-8, percent-encoding (RFC 3986), form encoding    *)
(* (application/x-www-form-urlencoded) and header field values (RFC 7230).   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

(* -------- character classes ------------------------------------------- *)
IsDigit(c) == c \in 48..57
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsHex(c)   == IsDigit(c) \/ c \in 65..70 \/ c \in 97..102
HexVal(c)  == IF IsDigit(c) THEN c - 48
              ELSE IF c \in 65..70 THEN c - 55
              ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 55 + n
Lower(c)   == IF c \in 65..90 THEN c + 32 ELSE c
LowerText(s) == [i \in 1..Len(s) |-> Lower(s[i])]

IsUnreserved(c) == IsAlpha(c) \/ IsDigit(c) \/ c \in {45, 46, 95, 126}     \* - . _ ~
IsSubDelim(c)   == c \in {33, 36, 38, 39, 40, 41, 42, 43, 44, 59, 61}     \* !$&'()*+,;=
(* RFC 3986 pchar, and [ ] ^ |, which URLs (WHATWG) do not encode in paths.    *)
IsPChar(c)      == IsUnreserved(c) \/ IsSubDelim(c) \/ c \in {58, 64, 91, 93, 94, 124}
IsScalar(c)     == c \in 0..1114111 /\ c \notin 55296..57343

(* -------- UTF-8 ----------------------------------------------------------- *)
Utf8Of(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Utf8(s) == FoldLeft(LAMBDA a, c : a \o Utf8Of(c), <<>>, s)

(* [ok, out]: strict decoding (no overlong forms, surrogates, truncation).    *)
Utf8Step(a, b) ==
  IF ~a.ok THEN a
  ELSE IF a.need = 0 THEN
    IF b < 128 THEN [a EXCEPT !.out = Append(@, b)]
    ELSE IF b \in 194..223 THEN [a EXCEPT !.need = 1, !.cp = b - 192, !.min = 128]
    ELSE IF b \in 224..239 THEN [a EXCEPT !.need = 2, !.cp = b - 224, !.min = 2048]
    ELSE IF b \in 240..244 THEN [a EXCEPT !.need = 3, !.cp = b - 240, !.min = 65536]
    ELSE [a EXCEPT !.ok = FALSE]
  ELSE IF b \notin 128..191 THEN [a EXCEPT !.ok = FALSE]
  ELSE LET cp == a.cp * 64 + (b - 128) IN
    IF a.need > 1 THEN [a EXCEPT !.need = @ - 1, !.cp = cp]
    ELSE IF cp >= a.min /\ IsScalar(cp)
         THEN [a EXCEPT !.need = 0, !.out = Append(@, cp)]
         ELSE [a EXCEPT !.ok = FALSE]
FromUtf8(bytes) ==
  LET r == FoldLeft(Utf8Step, [ok |-> TRUE, need |-> 0, cp |-> 0, min |-> 0, out |-> <<>>], bytes)
  IN [ok |-> r.ok /\ r.need = 0, out |-> r.out]

(* -------- percent-encoding ------------------------------------------------ *)
PctOf(b) == <<37, HexDigit(b \div 16), HexDigit(b % 16)>>
(* The canonical encoding of a path segment.                                 *)
PctEncode(s) == FoldLeft(LAMBDA a, b : IF IsUnreserved(b) THEN Append(a, b) ELSE a \o PctOf(b),
                         <<>>, Utf8(s))
PctStep(a, c) ==
  IF ~a.ok THEN a
  ELSE IF a.st = 0 THEN IF c = 37 THEN [a EXCEPT !.st = 1] ELSE [a EXCEPT !.out = Append(@, c)]
  ELSE IF ~IsHex(c) THEN [a EXCEPT !.ok = FALSE]
  ELSE IF a.st = 1 THEN [a EXCEPT !.st = 2, !.hi = HexVal(c)]
  ELSE [a EXCEPT !.st = 0, !.out = Append(@, a.hi * 16 + HexVal(c))]
(* [ok, out]: ok is FALSE if a '%' is not followed by two hexadecimal digits. *)
PctDecode(s) ==
  LET r == FoldLeft(PctStep, [ok |-> TRUE, st |-> 0, hi |-> 0, out |-> <<>>], s)
  IN [ok |-> r.ok /\ r.st = 0, out |-> r.out]

(* Percent-decoding followed by UTF-8 decoding.                              *)
(* k = "text": the text; "bad": not UTF-8; "odd": malformed percent-encoding. *)
DecodeText(s) ==
  LET p == PctDecode(s) IN
  IF ~p.ok THEN [k |-> "odd", out |-> <<>>]
  ELSE LET u == FromUtf8(p.out) IN
       IF u.ok THEN [k |-> "text", out |-> u.out] ELSE [k |-> "bad", out |-> <<>>]

(* -------- splitting ------------------------------------------------------- *)
SplitStep(sep, a, c) == IF c = sep THEN [done |-> Append(a.done, a.cur), cur |-> <<>>]
                        ELSE [a EXCEPT !.cur = Append(@, c)]
Split(s, sep) ==
  LET r == FoldLeft(LAMBDA a, c : SplitStep(sep, a, c), [done |-> <<>>, cur |-> <<>>], s)
  IN Append(r.done, r.cur)
(* The position of the first c in s, or 0. *)
Find(s, c) == IF \E i \in 1..Len(s) : s[i] = c
              THEN CHOOSE i \in 1..Len(s) : s[i] = c /\ \A j \in 1..(i - 1) : s[j] # c
              ELSE 0
Before(s, i) == SubSeq(s, 1, i - 1)
After(s, i)  == SubSeq(s, i + 1, Len(s))

(* -------- form encoding ---------------------------------------------------- *)
FormEncode(s) == FoldLeft(LAMBDA a, b : IF b = 32 THEN Append(a, 43)
                                        ELSE IF IsUnreserved(b) THEN Append(a, b) ELSE a \o PctOf(b),
                          <<>>, Utf8(s))
FormDecode(s) == DecodeText([i \in 1..Len(s) |-> IF s[i] = 43 THEN 32 ELSE s[i]])
(* The sequence of pairs of a query: each [k, v] as decoded texts.            *)
FormPair(p) ==
  LET i == Find(p, 61) IN
  IF i = 0 THEN [k |-> FormDecode(p), v |-> FormDecode(<<>>)]
  ELSE [k |-> FormDecode(Before(p, i)), v |-> FormDecode(After(p, i))]
FormPairs(q) ==
  LET parts == SelectSeq(Split(q, 38), LAMBDA p : p # <<>>) IN
  [i \in 1..Len(parts) |-> FormPair(parts[i])]

(* -------- header field values ---------------------------------------------- *)
IsBlank(c) == c \in {32, 9}
(* Texts which an HTTP header field can carry as they are.                    *)
CarriableHeader(s) ==
  /\ \A i \in 1..Len(s) : s[i] # 127 /\ (s[i] >= 32 \/ s[i] = 9)
  /\ s # <<>> => ~IsBlank(s[1]) /\ ~IsBlank(s[Len(s)])

(* -------- request targets -------------------------------------------------- *)
IsUrlChar(c) == IsPChar(c) \/ c \in {37, 47, 63}
(* A target which is a plain absolute path with an optional query (so that no  *)
(* URL normalisation other than percent-decoding applies to it).               *)
IsDotSegment(s) == LET d == DecodeText(s).out IN d \in {<<46>>, <<46, 46>>}
PathPart(t)  == LET i == Find(t, 63) IN IF i = 0 THEN t ELSE Before(t, i)
QueryPart(t) == LET i == Find(t, 63) IN IF i = 0 THEN <<>> ELSE After(t, i)
RawSegments(t) == LET p == PathPart(t) IN Split(SubSeq(p, 2, Len(p)), 47)
IsPlainTarget(t) ==
  /\ t # <<>> /\ t[1] = 47
  /\ \A i \in 1..Len(t) : IsUrlChar(t[i])
  /\ \A i \in 1..Len(RawSegments(t)) : ~IsDotSegment(RawSegments(t)[i])
=============================================================================
