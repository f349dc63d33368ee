-------------------------------- MODULE MCText -------------------------------
(* The laws of the encodings, for all short texts over characters which stand   *)
(* for every class, and for all short octet strings over critical octets.       *)
EXTENDS Types, TLC
M == INSTANCE MsgPack
CONSTANTS Chars, Octets, Signs, MaxChars, MaxOctets, MaxDigits
VARIABLES k, s
RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN {<<>>}
                 ELSE LET T == Strings(A, n - 1) IN T \cup {Append(x, c) : x \in {u \in T : Len(u) = n - 1}, c \in A}
Init == \/ k = "text" /\ s \in Strings(Chars, MaxChars)
        \/ k = "octets" /\ s \in Strings(Octets, MaxOctets)
        \/ k = "digits" /\ s \in Strings(Signs, MaxDigits)
Next == UNCHANGED <<k, s>>
Spec == Init /\ [][Next]_<<k, s>>

LowerHex(c) == IF c \in 65..70 THEN c + 32 ELSE c
(* percent-encoding of everything, with lower case digits *)
LowerPct(x) == FoldLeft(LAMBDA a, b : a \o <<37, LowerHex(HexDigit(b \div 16)), LowerHex(HexDigit(b % 16))>>, <<>>, Utf8(x))
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
IsText(r, x) == r.k = "text" /\ r.out = x
(* texts *)
Utf8Law == k = "text" => FromUtf8(Utf8(s)) = [ok |-> TRUE, out |-> s]
PctLaw == k = "text" => IsText(DecodeText(PctEncode(s)), s) /\ IsText(DecodeText(LowerPct(s)), s)
FormLaw == k = "text" => IsText(FormDecode(FormEncode(s)), s)
(* a text can be carried by a path segment unless it is a dot segment, and it stays one segment *)
SegmentLaw == k = "text" =>
  LET t == <<47>> \o PctEncode(s) IN
  /\ IsPlainTarget(t) = (s \notin {<<46>>, <<46, 46>>})
  /\ RawSegments(t) = <<PctEncode(s)>> /\ QueryPart(t) = <<>>
PairLaw == k = "text" =>
  LET q == FormEncode(s) \o <<61>> \o FormEncode(s) \o <<38, 122, 61>> \o FormEncode(s)
      ps == FormPairs(q)
      t == <<47, 120, 63>> \o q IN
  /\ Len(ps) = 2 /\ IsText(ps[1].k, s) /\ IsText(ps[1].v, s) /\ IsText(ps[2].k, <<122>>) /\ IsText(ps[2].v, s)
  /\ IsPlainTarget(t) /\ QueryPart(t) = q
JsonLaw == k = "text" =>
  LET p == J!JsonParse(J!Quoted(s)) IN p.ok /\ ~p.odd /\ p.root = <<J!Node("str", s, <<>>)>>
(* octets *)
StrictLaw == k = "octets" => LET u == FromUtf8(s) IN u.ok => (Utf8(u.out) = s /\ \A i \in 1..Len(u.out) : IsScalar(u.out[i]))
MpLaw == k = "octets" => LET p == M!MpParse(s) IN (p.ok /\ ~p.odd /\ Len(s) = 1) => s[1] \notin {193, 196, 202}
(* numerals *)
IsNumeral(x) == x # <<>> /\ (\A i \in 1..Len(x) : IsDigit(x[i]))
Value(x) == FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, x)
Body(x) == IF x # <<>> /\ x[1] \in {43, 45} THEN Tail(x) ELSE x
Num(x) == IF x # <<>> /\ x[1] = 45 THEN - Value(Tail(x)) ELSE Value(Body(x))
RangeOf(t) == CASE t = "i8" -> <<-128, 127>> [] t = "u8" -> <<0, 255>> [] t = "i16" -> <<-32768, 32767>>
                [] t = "u16" -> <<0, 65535>> [] t = "i32" -> <<-2147483647, 2147483647>> [] OTHER -> <<0, 2147483647>>
IntLaw == k = "digits" => \A t \in {"i8", "u8", "i16", "u16", "i32", "u32", "u64"} :
  LET v == IntLiteral(t, s) IN
  /\ (v.v = "no") = (~IsNumeral(Body(s)) \/ Num(s) < RangeOf(t)[1] \/ Num(s) > RangeOf(t)[2])
  /\ v.v = "yes" => v.x = s
  /\ v.v = "may" => v.x # s /\ Num(v.x) = Num(s) /\ IntLiteral(t, v.x) = Yes(v.x)
(* JSON and plain numerals agree on integers *)
JsonIntLaw == k = "digits" =>
  (J!IsIntWord(s) => IntLiteral("i64", s).v = "yes")
(* MessagePack integers of two octets agree with arithmetic *)
MpIntLaw == k = "octets" /\ Len(s) = 2 =>
  /\ M!UIntText(s) = Dec(s[1] * 256 + s[2])
  /\ M!IntText(s) = IF s[1] < 128 THEN Dec(s[1] * 256 + s[2]) ELSE <<45>> \o Dec(65536 - s[1] * 256 - s[2])
=============================================================================
