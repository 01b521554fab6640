---------------------------- MODULE MBusLinkCtl -----------------------------
(***************************************************************************)
(* The control part of the link machine: everything but what the data of a *)
(* long frame mean.  One step per received byte.  ok says whether the byte *)
(* is a control field the standard has.  MBusParser!LinkStep is this step  *)
(* with the application machine added; MBusLinkProof proves on it, for     *)
(* frames of all lengths, what MBusLink checks on a catalogue of frames.   *)
(*   S; long: L1 L2 L3 C A D CS T END; short: SC SA SCS ST SEND; ACK; REJ  *)
(***************************************************************************)
EXTENDS Integers

\* @typeAlias: link = {ph: Str, l: Int, c: Int, a: Int, sum: Int, n: Int};
MBusLinkCtl_aliases == TRUE

\* @type: $link => $link;
LReject(x) == [x EXCEPT !.ph = "REJ"]
\* @type: ($link, Bool, Str) => $link;
LGo(x, cond, phase) == IF cond THEN [x EXCEPT !.ph = phase] ELSE LReject(x)

\* @type: ($link, Int, Bool) => $link;
CtlStep(x, b, ok) ==
  CASE x.ph = "D"  -> [x EXCEPT !.sum = (@ + b) % 256, !.n = @ - 1,
                                !.ph = IF x.n = 1 THEN "CS" ELSE "D"]
    [] x.ph = "REJ" -> x
    [] x.ph = "S"  -> CASE b = 104 -> [x EXCEPT !.ph = "L1"]
                        [] b = 16  -> [x EXCEPT !.ph = "SC"]
                        [] b = 229 -> [x EXCEPT !.ph = "ACK"]
                        [] OTHER   -> LReject(x)
    [] x.ph = "L1" -> LGo([x EXCEPT !.l = b], b >= 2, "L2")
    [] x.ph = "L2" -> LGo(x, b = x.l, "L3")
    [] x.ph = "L3" -> LGo(x, b = 104, "C")
    [] x.ph = "C"  -> LGo([x EXCEPT !.c = b, !.sum = b], ok, "A")
    [] x.ph = "A"  -> [x EXCEPT !.a = b, !.sum = (@ + b) % 256, !.n = x.l - 2,
                                !.ph = IF x.l = 2 THEN "CS" ELSE "D"]
    [] x.ph = "CS" -> LGo(x, b = x.sum, "T")
    [] x.ph = "T"  -> LGo(x, b = 22, "END")
    [] x.ph = "SC" -> LGo([x EXCEPT !.c = b, !.sum = b], ok, "SA")
    [] x.ph = "SA" -> [x EXCEPT !.a = b, !.sum = (@ + b) % 256, !.ph = "SCS"]
    [] x.ph = "SCS" -> LGo(x, b = x.sum, "ST")
    [] x.ph = "ST" -> LGo(x, b = 22, "SEND")
    [] OTHER -> LReject(x)                       \* END, SEND, ACK: nothing may follow

\* the frame is complete and right as far as the link layer is concerned
\* @type: $link => Bool;
CtlOk(x) == x.ph \in {"SEND", "ACK", "END"}
=============================================================================
