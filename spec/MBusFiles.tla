------------------------------ MODULE MBusFiles ------------------------------
(***************************************************************************)
(* Telegram files and the command line tool (C26).  A writer puts bytes    *)
(* into a .hex file, digit by digit, with allowed decorations; the reader  *)
(* must get the bytes back, and an error as soon as anything that is no    *)
(* hexadecimal digit stands between the spaces.  The tool reports file     *)
(* after file.                                                             *)
(***************************************************************************)
EXTENDS MBusConform, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Values == IF Deep THEN {0, 9, 10, 15, 16, 31, 104, 160, 171, 229, 255} ELSE {0, 9, 16, 171, 255}
Pads == {<<>>, <<32>>, <<10>>, <<13, 10>>, <<9, 32>>}
Bad == {103, 120, 45, 44, 46, 58, 9, 10, 195, 47, 64, 71, 96}   \* between tokens or in them
Digit(v, upper) == IF v < 10 THEN 48 + v ELSE IF upper THEN 55 + v ELSE 87 + v
Pair(v, upper) == <<Digit(v \div 16, upper), Digit(v % 16, upper)>>

VARIABLES written, text, broken, files, shown
vars == <<written, text, broken, files, shown>>
Init == written = <<>> /\ text \in Pads /\ broken = FALSE /\ files = <<>> /\ shown = <<>>
Write(v, u) == /\ Len(written) < 3 /\ ~broken /\ files = <<>>
               /\ text' = text \o (IF written = <<>> THEN <<>> ELSE <<32>>) \o Pair(v, u)
               /\ written' = Append(written, v) /\ UNCHANGED <<broken, files, shown>>
\* one wrong character in the last pair
Spoil(b) == /\ written /= <<>> /\ ~broken /\ files = <<>>
            /\ \E k \in {0, 1} : text' = [text EXCEPT ![Len(text) - k] = b]
            /\ broken' = TRUE /\ UNCHANGED <<written, files, shown>>
PadEnd(p) == /\ written /= <<>> /\ files = <<>> /\ Len(written) < 3
          /\ text' = text \o p /\ files' = <<"closed">> /\ UNCHANGED <<written, broken, shown>>
Next == \/ \E v \in Values, u \in BOOLEAN : Write(v, u)
        \/ \E b \in Bad : Spoil(b)
        \/ \E p \in Pads : PadEnd(p)
Spec == Init /\ [][Next]_vars
\* white space in place of the last or first digit of a single pair may only
\* trim it: that is another text, not a broken one
Trimmed == Tokens(Trim(text))
Reads == (~broken /\ written /= <<>>) =>
           FileRun(0, text) = Ok(<<E("Bytes", "", written)>>, 0)
Refuses == broken =>
           (FileRun(0, text).st = "err" \/ \A i \in 1..Len(Trimmed) : TokOk(Trimmed[i]))
RefusesMost == (broken /\ \A i \in 1..Len(text) : text[i] \notin White \/ text[i] = 32) => FileRun(0, text).st = "err"
Raw == FileRun(1, text).ev[1].n = text
\* the tool: one heading and one outcome per file, in order, whatever they hold
Blob(s) == <<Len(s), 0>> \o s
Reported == LET bad == <<1, 2>>  good == <<229>>
                r == CliRun(<<1, 1, 1>>, Blob(bad) \o Blob(good) \o Blob(written)) IN
            /\ [i \in 1..3 |-> r.ev[2 * i - 1].s] = <<"1", "2", "3">>
            /\ r.ev[2].s = "Error" /\ r.ev[4].s = "Packet"
=============================================================================
