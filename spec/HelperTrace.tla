----------------------------- MODULE HelperTrace ----------------------------
(* Values carried by the real field helpers, checked against Helper.tla.       *)
EXTENDS Helper, Trace
tvars == <<t, l>>
Init == TInit
Ty == Traces[t].meta.ty
Field == [k |-> "struct", n |-> "", of |-> <<Ty>>, names |-> <<<<118>>>>]
Wrapped(v) == J!Node("obj", <<>>, <<J!Node("pair", <<118>>, <<v>>)>>)
(* A value is carried by one well-formed document, which encodes this value (in   *)
(* the surrounding format Ev.f), and comes back as it was.                        *)
Carry ==
  /\ Is("carry") /\ Ev.ok = 1
  /\ DocFit(Ev.f, Field, Ev.doc) # "no"
  /\ ~DocParse(Ev.f, Ev.doc).odd
  /\ DocMatch(Lits, Ev.f, Field, Ev.doc, Wrapped(Ev.given))
  /\ Len(Ev.got) = 1 /\ Ev.got[1] = Ev.given
(* The same in a format which is not specified here: the text of the field alone.  *)
CarryText ==
  /\ Is("carrytext") /\ Ev.ok = 1
  /\ LET n == J!Node("str", Ev.text, <<>>) IN
     /\ Fit("j", Ty, n) # "no" /\ Match(Lits, "j", Ty, n, Ev.given)
  /\ Len(Ev.got) = 1 /\ Ev.got[1] = Ev.given
(* Large values and what comes back are recorded as digests.                       *)
CarryBig == Is("carrybig") /\ Ev.ok = 1 /\ Ev.got = <<Ev.given>>
(* A document is read as the value which it encodes, or not at all.               *)
Read ==
  /\ Is("read")
  /\ LET v == DocFit(Ev.f, Field, Ev.doc)
         good == Len(Ev.got) = 1 /\ DocMatch(Lits, Ev.f, Field, Ev.doc, Wrapped(Ev.got[1]))
     IN CASE v = "yes" -> Ev.ok = 1 /\ good
          [] v = "no"  -> Ev.ok = 0
          [] OTHER     -> Ev.ok = 0 \/ good
Next == Carry \/ CarryBig \/ CarryText \/ Read
Spec == Init /\ [][Next]_tvars
=============================================================================
