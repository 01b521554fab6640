------------------------------- MODULE MBusApp -------------------------------
(***************************************************************************)
(* A device composes a telegram from records, fillers, an end marker and   *)
(* manufacturer data; the receiver reads it byte by byte.  Checked: the    *)
(* receiver is at a record boundary exactly when the device is (C09, C23), *)
(* what it has decoded there is what the device meant, in order            *)
(* (C09 - C18), and fillers and markers act only at boundaries (C10).      *)
(***************************************************************************)
EXTENDS MBusDevice, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Items == IF Deep THEN 3 ELSE 2            \* items before the end marker

Energy == Vib(<<3>>, "Energy(Wh, 0)", <<>>)
Volume == Vib(<<19>>, "Volume(M3, -3)", <<>>)
Plain0 == Dib(0, 0, 0, 0, 0, 0, FALSE)
D(f) == [Plain0 EXCEPT !.field = f]
Signed(v) == E("Data", "Signed", Int8(v))
\* values that look like fillers, markers and frame bytes come first
Catalog == {
  Record(D(0), Energy, <<>>, E("Data", "None", <<>>)),
  Record(D(1), Volume, EncInt(47, 1), Signed(47)),
  Record(D(1), Volume, EncInt(-1, 1), Signed(-1)),
  Record(D(2), Energy, EncInt(15 + 256 * 31, 2), Signed(15 + 256 * 31)),
  Record(D(2), Energy, EncInt(-32768, 2), Signed(-32768)),
  Record(D(3), Volume, EncInt(-8388608, 3), Signed(-8388608)),
  Record(D(3), Volume, EncInt(47 * 65793, 3), Signed(47 * 65793)),
  Record(D(4), Energy, EncInt(-2, 4), Signed(-2)),
  Record(D(6), Volume, EncInt(-300, 6), Signed(-300)),
  Record(D(7), Volume, EncInt(1000000, 8), Signed(1000000)),
  Record(D(4), Vib(<<125, 11>>, "ParameterSetIdentification", <<>>), EncInt(-1, 4),
         E("Data", "Unsigned", <<255, 255, 255, 255, 0, 0, 0, 0>>)),
  Record(D(5), Volume, <<0, 0, 128, 63>>, E("Data", "Real", <<0, 0, 128, 63>>)),
  Record(D(9), Energy, EncDec(-9, 1), Signed(-9)),
  Record(D(10), Energy, EncDec(1234, 2), Signed(1234)),
  Record(D(12), Volume, EncDec(-1234567, 4), Signed(-1234567)),
  Record(D(14), Energy, EncDec(20150731, 6), Signed(20150731)),
  Record(D(10), Energy, <<10, 240>>, E("Data", "ErrorValue", <<45, 48, 48, 65>>)),
  Record(D(13), Vib(<<125, 17>>, "Customer", <<>>), <<0>>, Text(<<>>)),
  Record(D(13), Vib(<<125, 17>>, "Customer", <<>>), <<3, 47, 15, 31>>, Text(<<31, 15, 47>>)),
  Record(D(13), Energy, <<194, 52, 18>>, Signed(1234)),
  Record(D(13), Energy, <<210, 52, 18>>, Signed(-1234)),
  Record(D(13), Energy, <<226, 254, 255>>, Signed(-2)),
  Record(D(13), Vib(<<125, 103>>, "SpecialSupplierInformation", <<>>), <<233>> \o [i \in 1..9 |-> 47],
         E("Data", "VariableLengthNumber", [i \in 1..9 |-> 47])),
  Record(Dib(1, 1, 1, 0, 0, 0, FALSE), Volume, <<5>>, Signed(5)),
  Record(Dib(1, 2, 47, 3, 1, 2, FALSE), Volume, <<31>>, Signed(31)),
  Record(Dib(2, 3, 0, 0, 0, 0, TRUE), Volume, <<31, 15>>, Signed(3871)),
  Record(Dib(1, 0, 513, 21, 6, 3, TRUE), Volume, <<15>>, Signed(15)),
  Record(D(1), Vib(<<19>>, "Volume(M3, -3)", <<47>>), <<1>>, Signed(1)),
  Record(D(1), Vib(<<125, 58>>, "Dimensionless", <<15, 31, 0>>), <<1>>, Signed(1)),
  Record(D(1), Vib(<<125, 125, 2>>, "RemainingBatteryLife(Months)", <<>>), <<200>>,
         E("Data", "Unsigned", <<200, 0, 0, 0, 0, 0, 0, 0>>)),
  Record(D(1), Vib(<<123, 40>>, "Power(MW, -1)", <<>>), <<7>>, Signed(7)),
  Record(D(1), Unit(<<72, 37, 82>>, <<>>), <<7>>, Signed(7)),
  Record(D(1), Unit(<<47>>, <<60>>), <<7>>, Signed(7)),
  Record(D(2), Vib(<<108>>, "TypeGDate", <<>>), <<127, 44>>, E("Data", "Date", <<31, 12, 19>>)),
  Record(D(4), Vib(<<109>>, "TypeFDateTime", <<>>), <<47, 15, 31, 12>>, E("Data", "DateTimeF", <<47, 15, 31, 12, 0, 1, 0>>)),
  Record(D(6), Vib(<<109>>, "TypeIDateTime", <<>>), <<31, 47, 47, 15, 31, 15>>,
         E("Data", "DateTimeI", <<31, 47, 15, 15, 15, 8, 1, 15, 0, 0, 0>>)),
  Record(D(3), Vib(<<109>>, "TypeJTime", <<>>), <<47, 15, 15>>, E("Data", "Time", <<47, 15, 15>>)),
  Record(D(3), Vib(<<108>>, "Invalid(108)", <<>>), <<47, 15, 31>>, Signed(2035503)),
  Record(D(1), Vib(<<125, 114>>, "Invalid(114)", <<>>), <<47>>, Signed(47)),
  Record(D(12), Vib(<<109>>, "Invalid(109)", <<>>), EncDec(15310947, 4), Signed(15310947)) }

VARIABLES meant,    \* what the device has put on the wire, as items
          open,     \* "records", then "manufacturer"
          bytes,    \* bytes of the current item still to come
          cnt,      \* items composed so far
          rx        \* the receiver
vars == <<meant, open, bytes, cnt, rx>>

Init == meant = <<>> /\ open = "records" /\ bytes = <<>> /\ cnt = 0 /\ rx = AppStart("REC", FALSE)

Idle == bytes = <<>>
AddRecord(r) == /\ Idle /\ open = "records" /\ cnt < Items
                /\ bytes' = EncRecord(r) /\ meant' = meant \o MeanRecord(r) /\ cnt' = cnt + 1
                /\ UNCHANGED <<open, rx>>
AddFiller == /\ Idle /\ open = "records" /\ cnt < Items
             /\ bytes' = <<47>> /\ cnt' = cnt + 1 /\ UNCHANGED <<meant, open, rx>>
EndRecords(m) == /\ Idle /\ open = "records"
                 /\ bytes' = <<m>> /\ open' = IF m = 31 THEN "more" ELSE "last"
                 /\ cnt' = 0 /\ UNCHANGED <<meant, rx>>
AddManufacturer(b) == /\ Idle /\ open /= "records" /\ cnt < 2
                      /\ bytes' = <<b>> /\ cnt' = cnt + 1 /\ UNCHANGED <<meant, open, rx>>
Transmit == /\ ~Idle /\ rx' = AppStep(rx, Head(bytes)) /\ bytes' = Tail(bytes)
            /\ UNCHANGED <<meant, open, cnt>>
Next == \/ \E r \in Catalog : AddRecord(r)
        \/ AddFiller
        \/ \E m \in {15, 31} : EndRecords(m)
        \/ \E b \in {47, 31} : AddManufacturer(b)
        \/ Transmit
Spec == Init /\ [][Next]_vars

CatalogOk == \A r \in Catalog : DibFits(r.dib)
ASSUME CatalogOk

\* between items the receiver may stop, and has decoded what was meant
InSync == Idle => /\ AppOk(rx)
                  /\ (open = "records") = (rx.ph = "REC")
                  /\ rx.body = meant
                  /\ rx.nrec = Len(SelectSeq(meant, LAMBDA x : x.e = "Rec"))
\* inside an item (some but not all of its bytes read) it must not stop
rxInside == rx.ph \notin {"REC", "MFR"}
NoHalfRecord == (rxInside => ~AppOk(rx) /\ ~Idle)
\* never rejected, never out of step
NeverLost == rx.ph /= "REJ"
Trailer == (Idle /\ open /= "records") =>
             LET ev == BodyEvs(rx) IN
             /\ ev[Len(ev) - 1] = E("More", "", <<IF open = "more" THEN 1 ELSE 0>>)
             /\ Len(ev[Len(ev)].n) = cnt
\* what was decoded is never taken back (no record depends on later ones)
Monotone == [][IsPrefix(rx.body, rx'.body)]_vars
=============================================================================
