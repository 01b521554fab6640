------------------------------- MODULE MBusGen -------------------------------
(***************************************************************************)
(* Test generation: one implementation test per transition of the receiver.*)
(* TLC walks the application machine with all 256 bytes; VIEW identifies   *)
(* states that the machine treats alike, so every (abstract state, byte)   *)
(* pair is taken once, from the shortest history reaching it, and printed  *)
(* both as it stands (a telegram cut there) and completed to a telegram    *)
(* the receiver can accept.                                                *)
(***************************************************************************)
EXTENDS MBusConform, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
VARIABLES m, path
vars == <<m, path>>

Min2(a, b) == IF a < b THEN a ELSE b
\* "nothing wrong yet" in a partly read header or data field
HdrGood(x) == \A i \in 1..Len(x.buf) :
  IF x.need = 4 THEN i >= 3 => x.buf[i] = 0
  ELSE CASE i <= 4 -> Digits2Ok(x.buf[i]) [] i = 5 -> x.buf[i] = 33 [] i = 6 -> x.buf[i] = 4
         [] i >= 11 -> x.buf[i] = 0 [] OTHER -> TRUE
DataGood(x) == CASE x.q = "DSTTypeK" -> \A i \in 1..Len(x.buf) : x.buf[i] = 33
                 [] IsDate(x.q) -> \A i \in 1..Len(x.buf) : x.buf[i] = 1
                 [] Field(x.dif)[1] = "Bcd" -> \A i \in 1..Len(x.buf) : Digits2Ok(x.buf[i])
                 [] x.lv \in 192..217 -> \A i \in 1..Len(x.buf) : Digits2Ok(x.buf[i])
                 [] OTHER -> TRUE
QClass(x) == CASE IsDate(x.q) -> x.q
               [] x.q \in UnsignedQuantities -> "unsigned" [] OTHER -> "signed"
LvClass(b) == CASE b <= 191 -> "text" [] b <= 201 -> "pos" [] b <= 217 -> "neg" [] b <= 232 -> "int" [] OTHER -> "long"
Abs(x) ==
  CASE x.ph = "HDR" -> <<"HDR", x.need, Len(x.buf), x.form, HdrGood(x)>>
    [] x.ph \in {"RAW", "MFR", "ERRM"} -> <<x.ph, x.kind, Min2(Len(x.buf), 2)>>
    [] x.ph = "SEL" -> <<"SEL", x.kind, Len(x.buf), x.ign>>
    [] x.ph \in {"IGN", "DONE"} -> <<x.ph, x.kind, Min2(x.ign, 1), x.nrec>>
    [] x.ph = "REC" -> <<"REC", x.single, x.after, Min2(x.nrec, 1), x.kind>>
    [] x.ph = "DIFE" -> <<"DIFE", Len(x.difes)>>
    [] x.ph = "VIF" -> <<"VIF", x.dif % 16, Len(x.difes) = 0>>
    [] x.ph = "PTX" -> <<"PTX", Min2(x.need, 3), Len(x.buf), x.ext>>
    [] x.ph = "VIFE" -> <<"VIFE", Min2(Len(x.vifes), 2), QClass(x), IF IsDate(x.q) THEN x.dif % 16 ELSE 0>>
    [] x.ph = "LV" -> <<"LV", QClass(x), x.vs = "TypeMDatetime">>
    [] x.ph = "DATA" -> <<"DATA", x.dif % 16, QClass(x), DataGood(x), Min2(x.need, 12), Min2(Len(x.buf), 9),
                          IF x.dif % 16 = 13 THEN LvClass(x.lv) ELSE "">>
    [] x.ph = "REJ" -> <<"REJ", x.why>>
    [] OTHER -> <<x.ph, x.kind, x.dif % 16>>
View == Abs(m)

\* one byte towards an acceptable end
Toward(x) ==
  CASE x.ph = "HDR" -> IF x.need = 12 /\ Len(x.buf) = 4 THEN 33 ELSE IF x.need = 12 /\ Len(x.buf) = 5 THEN 4 ELSE 0
    [] x.ph = "DATA" -> IF x.q = "DSTTypeK" THEN 33 ELSE 1
    [] x.ph \in {"DIFE", "REC"} -> 1
    [] x.ph = "VIF" -> 19 [] x.ph = "VIFA" -> 40 [] x.ph = "VIFX" -> 8 [] x.ph = "VIFX2" -> 2
    [] x.ph \in {"PTX"} -> 65 [] OTHER -> 0
RECURSIVE Completion(_, _)
Completion(x, k) == IF k = 0 \/ AppOk(x) \/ x.ph = "REJ" THEN <<>>
                    ELSE LET b == Toward(x) IN <<b>> \o Completion(AppStep(x, b), k - 1)
\* then one more record and manufacturer data, where there can be some
After(x) == CASE x.ph = "REC" /\ ~x.single -> <<1, 19, 5, 31, 170>>
              [] x.ph \in {"RAW", "MFR", "ERRM", "IGN"} -> <<1, 19>>
              [] OTHER -> <<>>
Full(x, p) == LET c == Completion(x, 300) IN p \o c \o After(AppRun(x, c))

Init == m = AppInit /\ path = <<>>
\* where the next byte is only stored, or the like was tried elsewhere, a few
\* values stand for all 256
Few == {0, 1, 15, 22, 31, 47, 104, 127, 128, 154, 160, 229, 240, 250, 255}
Stored == {"RAW", "MFR", "ERRM", "IGN", "DONE"}
Thin(x) == \/ x.ph \in Stored
           \/ ~Deep /\ CASE x.ph = "DATA" -> ~IsDate(x.q) \/ x.dif % 16 = 13
                          [] x.ph = "HDR" -> x.form /= "REC" \/ ~HdrGood(x)
                          [] x.ph = "SEL" -> Len(x.buf) > 1
                          [] x.ph = "DIFE" -> Len(x.difes) \notin {0, 1, 9, 10}
                          [] x.ph = "VIF" -> x.dif % 16 \notin {2, 3, 4, 13} \/ Len(x.difes) > 0
                          [] x.ph = "VIFE" -> Len(x.vifes) > 1
                          [] x.ph = "LV" -> x.vs = "TypeMDatetime"
                          [] OTHER -> FALSE
BytesIn(x) == IF Thin(x) THEN Few ELSE Byte
Expand(x) == /\ x.ph = "REJ" => FALSE
             /\ Len(path) < (IF Deep THEN 60 ELSE 40)
             /\ x.ph \in {"PTX", "DATA"} => x.need - Len(x.buf) <= (IF Deep THEN 24 ELSE 9)
             /\ x.nrec <= 1
Step(b) == LET n == AppStep(m, b) IN
           /\ m' = n /\ path' = Append(path, b)
           /\ PrintT(<<"V", path'>>)
           /\ (n.ph = "REJ" \/ PrintT(<<"V", Full(n, path')>>))
Next == Expand(m) /\ \E b \in BytesIn(m) : Step(b)
Spec == Init /\ [][Next]_vars
=============================================================================
