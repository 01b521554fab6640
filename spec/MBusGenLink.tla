----------------------------- MODULE MBusGenLink -----------------------------
(***************************************************************************)
(* One implementation test per transition of the link machine: every       *)
(* (state, byte) pair, cut there and completed with the right lengths,     *)
(* checksum and tail.                                                      *)
(***************************************************************************)
EXTENDS MBusConform, IOUtils

VARIABLES x, path
vars == <<x, path>>
Init == x = LinkInit /\ path = <<>>
Min2(a, b) == IF a < b THEN a ELSE b
View == <<x.ph, Min2(x.l, 7), Min2(x.n, 4), IF x.ph \in {"D", "CS", "T", "END"} THEN x.app.ph ELSE "",
          IF x.ph = "D" THEN x.n = x.l - 2 ELSE FALSE>>

\* application bytes the receiver accepts, for n more data bytes
AppByte(r) == CASE r.app.ph = "CI" -> IF r.n = 1 THEN 112 ELSE 81
                [] r.app.ph = "HDR" -> 0 [] r.app.ph = "ERR" -> 0 [] OTHER -> 47
Toward(r) ==
  CASE r.ph = "S" -> 104 [] r.ph = "L1" -> 4 [] r.ph = "L2" -> r.l [] r.ph = "L3" -> 104
    [] r.ph \in {"C", "SC"} -> 8 [] r.ph \in {"A", "SA"} -> 5 [] r.ph = "D" -> AppByte(r)
    [] r.ph \in {"CS", "SCS"} -> r.sum [] OTHER -> 22
RECURSIVE Completion(_, _)
Completion(r, k) == IF k = 0 \/ LinkOk(r) \/ r.ph \in {"REJ", "END"} THEN <<>>
                    ELSE LET b == Toward(r) IN <<b>> \o Completion(LinkStep(r, b), k - 1)
Step(b) == LET n == LinkStep(x, b) IN
           /\ x' = n /\ path' = Append(path, b)
           /\ PrintT(<<"V", path'>>)
           /\ IF n.ph = "REJ"
              THEN \* what a receiver that overlooked the bad byte would read on
                   LET k == Toward(x)  c == Completion(LinkStep(x, k), 300) IN PrintT(<<"V", path' \o c>>)
              ELSE LET c == Completion(n, 300) IN
                   PrintT(<<"V", path' \o c>>) /\ PrintT(<<"V", path' \o c \o <<22>>>>)
Next == x.ph /= "REJ" /\ Len(path) < 14 /\ \E b \in Byte : Step(b)
Spec == Init /\ [][Next]_vars
=============================================================================
