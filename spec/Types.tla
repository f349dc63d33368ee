-------------------------------- MODULE Types -------------------------------
(* The field types of procedures and the literals by which URL paths, query   *)
(* strings and header fields carry their values.                              *)
(*                                                                            *)
(* A type is a record [o, t, c]: o = 1 for optional fields, t the name of the  *)
(* scalar type, c the text of a constant (t = "const").  A value is a record   *)
(* [p, x]: p = 0 for an absent optional, x the canonical text of the value.    *)
(* TLC numbers have 32 bits, hence numerals are compared digit by digit.       *)
EXTENDS Text

J == INSTANCE JsonText
True  == <<116, 114, 117, 101>>
False == <<102, 97, 108, 115, 101>>

(* limits: the magnitudes of the greatest and the least value.                 *)
MaxMag == [ i8  |-> <<1,2,7>>,               u8  |-> <<2,5,5>>,
         i16 |-> <<3,2,7,6,7>>,           u16 |-> <<6,5,5,3,5>>,
         i32 |-> <<2,1,4,7,4,8,3,6,4,7>>, u32 |-> <<4,2,9,4,9,6,7,2,9,5>>,
         i64 |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>,
         u64 |-> <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>> ]
MinMag == [ i8  |-> <<1,2,8>>,               u8  |-> <<0>>,
            i16 |-> <<3,2,7,6,8>>,           u16 |-> <<0>>,
            i32 |-> <<2,1,4,7,4,8,3,6,4,8>>, u32 |-> <<0>>,
            i64 |-> <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>,
            u64 |-> <<0>> ]
IntTypes == DOMAIN MaxMag
IsSigned(t) == t \in {"i8", "i16", "i32", "i64"}
FloatTypes == {"f32", "f64"}

(* Comparison of digit sequences without leading zeros.                        *)
DigitsLeq(a, b) ==
  \/ Len(a) < Len(b)
  \/ /\ Len(a) = Len(b)
     /\ \/ a = b
        \/ \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
StripZeros(d) == IF \A i \in 1..Len(d) : d[i] = 0 THEN <<0>>
                 ELSE LET i == CHOOSE i \in 1..Len(d) : d[i] # 0 /\ \A j \in 1..(i - 1) : d[j] = 0
                      IN SubSeq(d, i, Len(d))

(* A verdict [v, x] on a text as a literal of a type: v = "yes" if it is the   *)
(* canonical literal of the value x; "no" if it is not a literal of the type;  *)
(* "may" if it is an unusual spelling of x (such as +7 or 007), which may be   *)
(* accepted or refused, but never as another value.                            *)
Yes(x) == [v |-> "yes", x |-> x]
No     == [v |-> "no", x |-> <<>>]
May(x) == [v |-> "may", x |-> x]

IntLiteral(t, s) ==
  LET signed == s # <<>> /\ s[1] \in {43, 45}
      neg    == s # <<>> /\ s[1] = 45
      body   == IF signed THEN Tail(s) ELSE s
  IN IF body = <<>> \/ \E i \in 1..Len(body) : ~IsDigit(body[i]) THEN No
     ELSE LET d    == StripZeros([i \in 1..Len(body) |-> body[i] - 48])
              zero == d = <<0>>
              txt  == [i \in 1..Len(d) |-> d[i] + 48]
              canon == IF neg /\ ~zero THEN <<45>> \o txt ELSE txt
          IN IF ~DigitsLeq(d, IF neg THEN MinMag[t] ELSE MaxMag[t]) THEN No
             ELSE IF neg /\ ~zero /\ ~IsSigned(t) THEN No
             ELSE IF s = canon THEN Yes(canon) ELSE May(canon)

(* Literals whose meaning is outside this specification (floating point numbers) *)
(* are looked up in a table `lits` of [t, s, v, x] entries.              *)
Tabled(lits, t, s) ==
  IF \E i \in 1..Len(lits) : lits[i].t = t /\ lits[i].s = s
  THEN LET e == lits[CHOOSE i \in 1..Len(lits) : lits[i].t = t /\ lits[i].s = s]
       IN [v |-> e.v, x |-> e.x]
  ELSE [v |-> "any", x |-> <<>>]

Literal(lits, ty, s) ==
  CASE ty.t = "str"      -> Yes(s)
    [] ty.t = "bool"     -> IF s \in {True, False} THEN Yes(s) ELSE No
    [] ty.t \in IntTypes -> IntLiteral(ty.t, s)
    [] ty.t = "const"    -> IF s = ty.c THEN Yes(<<>>) ELSE No
    [] ty.t \in {"json", "jsonp"} -> J!JsonLiteral(s)
    [] OTHER             -> Tabled(lits, ty.t, s)

(* The verdict on a decoded text (see DecodeText) for a field of type ty.      *)
LiteralOf(lits, ty, d) ==
  CASE d.k = "text" -> Literal(lits, ty, d.out)
    [] d.k = "bad"  -> No
    [] OTHER        -> [v |-> "any", x |-> <<>>]

Absent == [p |-> 0, x |-> <<>>]
(* What a field may be delivered as: [v, p, x].                                *)
FieldVerdict(lits, ty, present, d) ==
  IF ~present THEN IF ty.o = 1 THEN [v |-> "yes", p |-> 0, x |-> <<>>]
                   ELSE [v |-> "no", p |-> 0, x |-> <<>>]
  ELSE LET r == LiteralOf(lits, ty, d) IN [v |-> r.v, p |-> 1, x |-> r.x]
(* Does the delivered value agree with the verdict?                            *)
Agrees(fv, val) ==
  CASE fv.v \in {"yes", "may"} -> val.p = fv.p /\ val.x = fv.x
    [] fv.v = "any" -> TRUE
    [] OTHER -> FALSE
=============================================================================
