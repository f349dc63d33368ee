------------------------------- MODULE MsgPack -------------------------------
(* MessagePack documents as sequences of octets, read into trees (see JsonText); *)
(* additional kinds: "int" (x: a canonical numeral), "float", "bin", "map" (parts *)
(* are "entry" nodes with key and value), "ext".                                  *)
EXTENDS JsonText

(* Numerals as digit sequences: d * m + a, for small m and a.                     *)
MulAdd(d, m, a) ==
  LET r == FoldRight(LAMBDA x, s : LET v == x * m + s.c IN [c |-> v \div 10, out |-> <<v % 10>> \o s.out],
                     d, [c |-> a, out |-> <<>>])
      RECURSIVE Carry(_)
      Carry(c) == IF c = 0 THEN <<>> ELSE Carry(c \div 10) \o <<c % 10>>
  IN Carry(r.c) \o r.out
Strip(d) == IF \A i \in 1..Len(d) : d[i] = 0 THEN <<0>>
            ELSE LET i == CHOOSE i \in 1..Len(d) : d[i] # 0 /\ \A j \in 1..(i - 1) : d[j] = 0
                 IN SubSeq(d, i, Len(d))
Magnitude(bytes) == Strip(FoldLeft(LAMBDA d, b : MulAdd(d, 256, b), <<0>>, bytes))
Complement(bytes) == [i \in 1..Len(bytes) |-> 255 - bytes[i]]
AsText(d) == [i \in 1..Len(d) |-> d[i] + 48]
UIntText(bytes) == AsText(Magnitude(bytes))
IntText(bytes) == IF bytes[1] < 128 THEN UIntText(bytes)
                  ELSE <<45>> \o AsText(Strip(MulAdd(Magnitude(Complement(bytes)), 1, 1)))
(* Lengths (those beyond 2^24 cannot be met by any document here).                *)
LenOf(bytes) == IF \E i \in 1..(Len(bytes) - 3) : bytes[i] # 0 THEN 16777216
                ELSE FoldLeft(LAMBDA n, b : n * 256 + b, 0, bytes)

Got(i, node) == [ok |-> TRUE, odd |-> FALSE, i |-> i, n |-> node]
Fail == [ok |-> FALSE, odd |-> FALSE, i |-> 0, n |-> Node("null", <<>>, <<>>)]
Sub(b, i, n) == SubSeq(b, i, i + n - 1)
Has(b, i, n) == i + n - 1 <= Len(b)
Blob(b, i, n, kind) ==
  IF ~Has(b, i, n) THEN Fail
  ELSE LET x == Sub(b, i, n) IN
       IF kind = "str"
       THEN LET u == FromUtf8(x) IN [Got(i + n, Node("str", u.out, <<>>)) EXCEPT !.odd = ~u.ok]
       ELSE Got(i + n, Node(kind, x, <<>>))
RECURSIVE MpValue(_, _, _), MpItems(_, _, _, _, _)
MpItems(b, i, n, d, acc) ==      \* n further values
  IF n = 0 THEN [ok |-> TRUE, odd |-> FALSE, i |-> i, e |-> acc]
  ELSE LET v == MpValue(b, i, d) IN
       IF ~v.ok THEN [ok |-> FALSE, odd |-> v.odd, i |-> 0, e |-> <<>>]
       ELSE LET r == MpItems(b, v.i, n - 1, d, Append(acc, v.n)) IN [r EXCEPT !.odd = @ \/ v.odd]
Items(b, i, n, d) == IF n > Len(b) THEN [ok |-> FALSE, odd |-> FALSE, i |-> 0, e |-> <<>>]
                     ELSE MpItems(b, i, n, d + 1, <<>>)
Arr(b, i, n, d) == LET r == Items(b, i, n, d) IN
  [ok |-> r.ok, odd |-> r.odd \/ d >= MaxDepth, i |-> r.i, n |-> Node("arr", <<>>, r.e)]
Map(b, i, n, d) == LET r == Items(b, i, 2 * n, d) IN
  [ok |-> r.ok, odd |-> r.odd \/ d >= MaxDepth, i |-> r.i,
   n |-> Node("map", <<>>, [j \in 1..(Len(r.e) \div 2) |-> Node("entry", <<>>, <<r.e[2 * j - 1], r.e[2 * j]>>)])]
(* With a length of k octets after the marker.                                    *)
Sized(b, i, k, F(_, _)) == IF Has(b, i + 1, k) THEN F(i + 1 + k, LenOf(Sub(b, i + 1, k))) ELSE Fail
Fixed(b, i, k, F(_)) == IF Has(b, i + 1, k) THEN Got(i + 1 + k, F(Sub(b, i + 1, k))) ELSE Fail
MpValue(b, i, d) ==
  IF ~Has(b, i, 1) THEN Fail
  ELSE LET c == b[i]
           Str(j, n) == Blob(b, j, n, "str")
           Bin(j, n) == Blob(b, j, n, "bin")
           Ext(j, n) == [Blob(b, j, n + 1, "ext") EXCEPT !.odd = TRUE]
           Array(j, n) == Arr(b, j, n, d)
           Mapping(j, n) == Map(b, j, n, d)
           UInt(x) == Node("int", UIntText(x), <<>>)
           SInt(x) == Node("int", IntText(x), <<>>)
           Float(x) == Node("float", x, <<>>)
       IN CASE c < 128 -> Got(i + 1, UInt(<<c>>))
            [] c >= 224 -> Got(i + 1, SInt(<<c>>))
            [] c \in 128..143 -> Map(b, i + 1, c - 128, d)
            [] c \in 144..159 -> Arr(b, i + 1, c - 144, d)
            [] c \in 160..191 -> Str(i + 1, c - 160)
            [] c = 192 -> Got(i + 1, Node("null", <<>>, <<>>))
            [] c = 194 -> Got(i + 1, Node("bool", JFalse, <<>>))
            [] c = 195 -> Got(i + 1, Node("bool", JTrue, <<>>))
            [] c = 196 -> Sized(b, i, 1, Bin) [] c = 197 -> Sized(b, i, 2, Bin) [] c = 198 -> Sized(b, i, 4, Bin)
            [] c = 199 -> Sized(b, i, 1, Ext) [] c = 200 -> Sized(b, i, 2, Ext) [] c = 201 -> Sized(b, i, 4, Ext)
            [] c = 202 -> Fixed(b, i, 4, Float) [] c = 203 -> Fixed(b, i, 8, Float)
            [] c = 204 -> Fixed(b, i, 1, UInt) [] c = 205 -> Fixed(b, i, 2, UInt)
            [] c = 206 -> Fixed(b, i, 4, UInt) [] c = 207 -> Fixed(b, i, 8, UInt)
            [] c = 208 -> Fixed(b, i, 1, SInt) [] c = 209 -> Fixed(b, i, 2, SInt)
            [] c = 210 -> Fixed(b, i, 4, SInt) [] c = 211 -> Fixed(b, i, 8, SInt)
            [] c = 212 -> Ext(i + 1, 1) [] c = 213 -> Ext(i + 1, 2) [] c = 214 -> Ext(i + 1, 4)
            [] c = 215 -> Ext(i + 1, 8) [] c = 216 -> Ext(i + 1, 16)
            [] c = 217 -> Sized(b, i, 1, Str) [] c = 218 -> Sized(b, i, 2, Str) [] c = 219 -> Sized(b, i, 4, Str)
            [] c = 220 -> Sized(b, i, 2, Array) [] c = 221 -> Sized(b, i, 4, Array)
            [] c = 222 -> Sized(b, i, 2, Mapping) [] c = 223 -> Sized(b, i, 4, Mapping)
            [] OTHER -> Fail
(* [ok, odd, root]: odd also for octets after the document.                        *)
MpParse(b) == LET v == MpValue(b, 1, 0)
              IN [ok |-> v.ok, odd |-> v.odd \/ (v.ok /\ v.i # Len(b) + 1), root |-> <<v.n>>]
=============================================================================
