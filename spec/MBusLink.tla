------------------------------ MODULE MBusLink ------------------------------
(***************************************************************************)
(* A sender, a wire with at most one fault, and the receiver of MBusParser *)
(* reading the wire byte by byte (C02, C03, C04, C05).                     *)
(***************************************************************************)
EXTENDS MBusParser, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"

Resp(recs) == <<120>> \o recs
Hdr12 == <<120, 86, 52, 18, 36, 64, 1, 7, 85, 0, 0, 0>>
Fill(n, b) == [i \in 1..n |-> b]
\* application data every byte of which the receiver accepts
Datas == { <<112>>, <<80>>, Resp(<<>>), Resp(<<1, 19, 5>>), <<114>> \o Hdr12 \o <<2, 108, 127, 44>>,
           Resp(<<47, 47, 15, 22>>), <<81, 22, 104>>,
           Resp(<<13, 253, 11, 3, 22, 16, 104>>) }
         \cup (IF Deep THEN { <<81>> \o Fill(101, 104), <<81>> \o Fill(13, 16), <<113>> \o Fill(253 - 1, 229),
                              <<102, 17>>, <<110, 1, 0, 0, 0, 240, 1, 19, 5>>,
                              Resp(<<132, 17, 19, 1, 2, 3, 4, 31, 1, 2>>) } ELSE {})
Controls == {b \in Byte : ControlOk(b)}
ShortFrame(c, a) == <<16, c, a, (c + a) % 256, 22>>
Frames == {<<229>>}
          \cup {ShortFrame(c, a) : c \in Controls, a \in (IF Deep THEN {0, 1, 16, 22, 104, 229, 255} ELSE {22})}
          \cup {Wrap(8, a, d) : a \in {1}, d \in Datas}
          \cup {Wrap(c, a, <<80>>) : c \in (IF Deep THEN Controls ELSE {104}), a \in {104}}
          \cup {Wrap(104, 104, d) : d \in {<<81, 104, 104>>}}

Noise == IF Deep THEN Byte
         ELSE {0, 1, 2, 3, 4, 8, 15, 16, 22, 31, 47, 80, 81, 104, 112, 127, 128, 229, 254, 255}

VARIABLES sent,     \* the frame on the wire
          pos,      \* how many of its bytes have left the sender
          fault,    \* "no", or the fault that has happened
          got,      \* how many bytes have arrived
          rx        \* the receiver
vars == <<sent, pos, fault, got, rx>>

Init == sent \in Frames /\ pos = 0 /\ fault = "no" /\ got = 0 /\ rx = LinkInit

Arrives(b) == got' = got + 1 /\ rx' = LinkStep(rx, b)
Live == rx.ph /= "REJ"                       \* REJ is absorbing (see Absorbing)
More == pos < Len(sent)

Deliver == /\ More /\ Live /\ fault /= "cut"
           /\ Arrives(sent[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED <<sent, fault>>
Substitute == /\ More /\ fault = "no"
              /\ \E b \in Noise \cup {sent[pos + 1] - 1, sent[pos + 1] + 1} :
                   b \in Byte \ {sent[pos + 1]} /\ Arrives(b)
              /\ fault' = "substitute" /\ pos' = pos + 1 /\ UNCHANGED sent
Drop == /\ More /\ fault = "no"
        /\ fault' = "drop" /\ pos' = pos + 1 /\ UNCHANGED <<sent, got, rx>>
Insert == /\ fault = "no"
          /\ \E b \in Noise \cup (IF More THEN {sent[pos + 1]} ELSE {}) : Arrives(b)
          /\ fault' = "insert" /\ UNCHANGED <<sent, pos>>
Cut == /\ More /\ fault = "no" /\ fault' = "cut" /\ UNCHANGED <<sent, pos, got, rx>>
Next == Deliver \/ Substitute \/ Drop \/ Insert \/ Cut
Spec == Init /\ [][Next]_vars

AtEnd == pos = Len(sent) \/ fault = "cut"
\* C02: the undamaged frame is accepted and reported as sent
Complete == (fault = "no" /\ pos = Len(sent)) =>
              LinkOk(rx) /\ LET ev == LinkEvs(rx) IN
                CASE sent[1] = 229 -> ev = <<E("Frame", "Ack", <<>>)>>
                  [] sent[1] = 16 -> /\ ev[1].s = "Short" /\ ev[2] = ControlEv(sent[2])
                                     /\ ev[3].n = <<sent[3]>>
                  [] OTHER -> /\ ev[1].s = "Long" /\ ev[2] = ControlEv(sent[5])
                              /\ ev[3].n = <<sent[6]>>
\* C03: a damaged one never is
Sound == (AtEnd /\ fault /= "no") => ~LinkOk(rx)
\* C04: no proper prefix of the undamaged frame is accepted or rejected
Waits == (fault = "no" /\ pos < Len(sent)) => Live /\ ~LinkOk(rx)
\* C04: when all announced bytes have arrived the decision is made
Decides == (fault = "no" /\ pos = Announced(sent)) => (LinkOk(rx) \/ rx.ph = "REJ")
Absorbing == [][rx.ph = "REJ" => rx'.ph = "REJ"]_vars
=============================================================================
