---------------------------- MODULE MBusEnvelope ----------------------------
(***************************************************************************)
(* The receiver fed with arbitrary bytes: it accepts exactly the strings   *)
(* of the declarative envelope whose data the application accepts (C02),   *)
(* at most one prefix of any string, and never changes its mind (C04).     *)
(***************************************************************************)
EXTENDS MBusParser, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
\* an alphabet in which markers, lengths, controls, CI fields and checksums meet
Alphabet == {2, 3, 8, 16, 22, 104, 112, 122, 229} \cup (IF Deep THEN {0, 4, 120, 240, 255} ELSE {})
Free == IF Deep THEN 5 ELSE 4        \* rejected strings are extended up to here
MaxLen == IF Deep THEN 12 ELSE 11

VARIABLES s, rx, accepted
vars == <<s, rx, accepted>>
Init == s = <<>> /\ rx = LinkInit /\ accepted = 0
Read(b) == /\ s' = Append(s, b)
           /\ rx' = LinkStep(rx, b)
           /\ accepted' = IF LinkOk(rx') THEN Len(s') ELSE accepted
Next == /\ Len(s) < MaxLen /\ (rx.ph /= "REJ" \/ Len(s) < Free)
        /\ rx.l > (IF Deep THEN 5 ELSE 4) => Len(s) < 7      \* long data: MBusLink
        /\ \E b \in Alphabet : Read(b)
Spec == Init /\ [][Next]_vars

Decodable == IsLong(s) => AppOk(AppRun(AppInit, SubSeq(s, 7, Len(s) - 2)))
Exactly == LinkOk(rx) <=> (Envelope(s) /\ Decodable)
Reported == LinkOk(rx) =>
  LET ev == LinkEvs(rx) IN
  CASE s[1] = 229 -> ev = <<E("Frame", "Ack", <<>>)>>
    [] s[1] = 16 -> ev[1].s = "Short" /\ ev[2] = ControlEv(s[2]) /\ ev[3].n = <<s[3]>>
    [] OTHER -> ev[1].s = "Long" /\ ev[2] = ControlEv(s[5]) /\ ev[3].n = <<s[6]>>
OneAcceptingPrefix == [][accepted > 0 => accepted' = accepted]_vars
Absorbing == [][rx.ph = "REJ" => rx'.ph = "REJ"]_vars
AnnouncedRight == LinkOk(rx) => Announced(s) = Len(s)
InTime == (Announced(s) > 0 /\ Len(s) >= Announced(s)) =>
            (LinkOk(rx) \/ rx.ph = "REJ" \/ (rx.ph = "END" /\ ~AppOk(rx.app)))
=============================================================================
