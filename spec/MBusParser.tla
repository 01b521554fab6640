----------------------------- MODULE MBusParser -----------------------------
(***************************************************************************)
(* The M-Bus receiver as an explicit state machine over bytes.             *)
(*                                                                         *)
(* Two machines: AppStep consumes the application data (CI field, header,  *)
(* records / payload); LinkStep consumes the bytes of a frame and feeds    *)
(* its data bytes to AppStep.  Both are deterministic, every byte is one   *)
(* transition, REJ is absorbing, and what has been decoded so far is part  *)
(* of the state, so that "what is reported", "how many bytes did this      *)
(* record take" and "may the telegram end here" are state predicates.      *)
(* The code buffers a frame and decodes it with recursive descent; the     *)
(* conformance checks decide that both give the same outcomes.             *)
(***************************************************************************)
EXTENDS MBusTables, MBusLinkCtl

(***************************************************************************)
(* Application machine                                                     *)
(*  ph    phase                                                            *)
(*    CI HDR            CI field, header bytes                             *)
(*    RAW IGN SEL ERR ERRM   uninterpreted payload, ignored rest,          *)
(*                      application select, error code, its own bytes      *)
(*    REC               record boundary                                    *)
(*    DIFE VIF VIFX VIFX2 PTL PTX VIFE LV DATA   inside a record           *)
(*    MFR               after an end marker                                *)
(*    DONE              single record complete (later bytes not consumed)  *)
(*    REJ               rejected, why says where                           *)
(*  single  one record only: no fillers, no end markers                    *)
(***************************************************************************)
AppStart(phase, single_) ==
  [ph |-> phase, why |-> "", single |-> single_, after |-> "DONE",
   kind |-> "", ci |-> <<>>, form |-> "", hdr |-> <<>>, body |-> <<>>,
   buf |-> <<>>, need |-> 0, ign |-> 0, more |-> 0, nrec |-> 0,
   dif |-> 0, difes |-> <<>>, obis |-> 0,
   q |-> "", vs |-> "", vn |-> <<>>, ext |-> FALSE, vifes |-> <<>>, hasx |-> FALSE, lv |-> 0]

AppInit == AppStart("CI", FALSE)
Reject(m, w) == [m EXCEPT !.ph = "REJ", !.why = w]

----------------------------------------------------------------------------
(* Header                                                                  *)
ShortEvs(b, o) == <<E("Acc", "", <<b[o]>>), StatusEv(b[o + 1]), CfgEv(b[o + 2], b[o + 3])>>
IdOk(b) == \A i \in 1..4 : Digits2Ok(b[i])
IdLimbs(b) == SubSeq(BcdMag(SubSeq(b, 1, 4)), 1, 2)
LongOk(b) == IdOk(b) /\ ManValid(ManCode(b[5], b[6])) /\ CfgOk(b[11], b[12])
LongEvs(b) ==
  LET code == ManCode(b[5], b[6])  ty == DeviceTypeTab[b[8]] IN
  <<E("Hdr", "Long", <<>>), E("Id", "", IdLimbs(b)), E("Man", ManString(code), <<>>),
    E("Name", DeviceName(b[4], code, b[7], ty), <<>>), E("Ver", "", <<b[7]>>), E("Type", ty, <<>>)>>
  \o ShortEvs(b, 9)

BodyStart(m) == [m EXCEPT !.ph = m.form, !.buf = <<>>]

StepCI(m, b) ==
  LET c == CITab[b] IN
  IF c.form = "REJ" THEN Reject(m, "CI")
  ELSE LET m1 == [m EXCEPT !.kind = c.kind, !.ci = c.ci, !.form = c.form, !.after = "IGN"] IN
       CASE c.hdr = "None"  -> BodyStart([m1 EXCEPT !.hdr = <<E("Hdr", "None", <<>>)>>])
         [] c.hdr = "Short" -> [m1 EXCEPT !.ph = "HDR", !.need = 4]
         [] OTHER           -> [m1 EXCEPT !.ph = "HDR", !.need = 12]

StepHDR(m, b) ==
  LET buf == Append(m.buf, b) IN
  IF Len(buf) < m.need THEN [m EXCEPT !.buf = buf]
  ELSE IF m.need = 4
    THEN IF CfgOk(buf[3], buf[4])
         THEN BodyStart([m EXCEPT !.hdr = <<E("Hdr", "Short", <<>>)>> \o ShortEvs(buf, 1)])
         ELSE Reject(m, "header")
    ELSE IF LongOk(buf)
         THEN BodyStart([m EXCEPT !.hdr = LongEvs(buf)])
         ELSE Reject(m, "header")

----------------------------------------------------------------------------
(* Records                                                                 *)
RECURSIVE Cat(_, _, _)
Cat(Op(_), s, i) == IF i > Len(s) THEN <<>> ELSE Op(s[i]) \o Cat(Op, s, i + 1)

\* bit b of the storage number etc., least significant first
StorageBits(dif, difes) ==
  <<Bit(dif, 6)>> \o Cat(LAMBDA d : <<Bit(d, 0), Bit(d, 1), Bit(d, 2), Bit(d, 3)>>, difes, 1)
TariffBits(difes) == Cat(LAMBDA d : <<Bit(d, 4), Bit(d, 5)>>, difes, 1)
DeviceBits(difes) == Cat(LAMBDA d : <<Bit(d, 6)>>, difes, 1)

DibEvs(dif, difes, obis) ==
  <<E("Fn", Functions4[Bits(dif, 4, 2) + 1], <<>>), E("Raw", Field(dif)[3], <<>>),
    E("Sto", "", IF difes = <<>> THEN <<Bit(dif, 6), 0, 0, 0>> ELSE BitsLimbs(StorageBits(dif, difes), 4)),
    E("Tar", "", IF difes = <<>> THEN <<0, 0>> ELSE BitsLimbs(TariffBits(difes), 2)),
    E("Sub", "", IF difes = <<>> THEN <<0>> ELSE BitsLimbs(DeviceBits(difes), 1)),
    E("Obis", "", <<obis>>)>>
VibEvs(m) == <<E("Vif", m.vs, m.vn), E("Vifes", IF m.hasx THEN "some" ELSE "none", m.vifes)>>

\* the record is complete with this data item
EndRec(m, d) ==
  [m EXCEPT !.ph = IF m.single THEN m.after ELSE "REC", !.nrec = @ + 1, !.buf = <<>>, !.need = 0,
            !.body = @ \o <<E("Rec", "", <<>>)>> \o DibEvs(m.dif, m.difes, m.obis) \o VibEvs(m) \o <<d>>]

Dat(s, n) == E("Data", s, n)
IntEv(q, bs) == IF q \in UnsignedQuantities THEN Dat("Unsigned", UnsignedBytes(bs))
                ELSE Dat("Signed", SignedBytes(bs))
BcdEv(bs, neg) == Dat("Signed", BcdBytes(bs, neg))

IsDate(q) == q \in {"TypeGDate", "TypeFDateTime", "TypeJTime", "TypeIDateTime", "DSTTypeK"}
DateOf(q, bs) == CASE q = "TypeGDate" -> DateG(bs)
                   [] q = "TypeFDateTime" -> DateF(bs)
                   [] q = "TypeJTime" -> TimeJ(bs)
                   [] q = "TypeIDateTime" -> DateI(bs)
                   [] OTHER -> DstK(bs)

\* a variable-length item: how many bytes follow its length byte (-1: invalid)
LvarLen(b) == CASE b <= 191 -> b
                [] InRange(b, 192, 201) -> b - 192
                [] InRange(b, 208, 217) -> b - 208
                [] InRange(b, 224, 239) -> b - 224
                [] InRange(b, 240, 244) -> 4 * (b - 236)
                [] b = 245 -> 48
                [] b = 246 -> 64
                [] OTHER -> -1

EndLvar(m, bs) ==
  LET lv == m.lv IN
  CASE lv <= 191 -> EndRec(m, Dat("String", Latin1Text(bs)))
    [] InRange(lv, 192, 201) ->
         IF BcdOk(bs) /\ (BcdNeg(bs) => BcdMag(bs) = Zero4) THEN EndRec(m, BcdEv(bs, FALSE))
         ELSE Reject(m, "lvar bcd")
    [] InRange(lv, 208, 217) ->
         IF BcdOk(bs) THEN EndRec(m, BcdEv(bs, TRUE)) ELSE Reject(m, "lvar bcd")
    [] InRange(lv, 224, 232) -> EndRec(m, IntEv(m.q, bs))
    [] OTHER -> EndRec(m, Dat("VariableLengthNumber", bs))

EndData(m, bs) ==
  IF IsDate(m.q)
  THEN LET d == DateOf(m.q, bs) IN
       IF d.ok THEN EndRec(m, Dat(d.s, d.n)) ELSE Reject(m, "date")
  ELSE LET k == Field(m.dif)[1] IN
       CASE k = "Bin" -> EndRec(m, IntEv(m.q, bs))
         [] k = "Real" -> EndRec(m, RealEv(bs))
         [] k = "Bcd" -> EndRec(m, IF BcdOk(bs) THEN BcdEv(bs, FALSE) ELSE Dat("ErrorValue", BcdText(bs)))
         [] OTHER -> EndLvar(m, bs)

\* date quantities depend on the declared width
Settle(m) ==
  LET f == Field(m.dif)[3]
      set(q, s) == [m EXCEPT !.q = q, !.vs = s]
  IN CASE m.q = "TypeGDate" ->
            IF f = "Binary(2)" THEN m ELSE set("Invalid", "Invalid(108)")
       [] m.q = "VariableDateTime" ->
            CASE f = "LVAR" -> set("TypeMDatetime", "TypeMDatetime")
              [] f = "Binary(4)" -> set("TypeFDateTime", "TypeFDateTime")
              [] f = "Binary(3)" -> set("TypeJTime", "TypeJTime")
              [] f = "Binary(6)" -> set("TypeIDateTime", "TypeIDateTime")
              [] OTHER -> set("Invalid", "Invalid(109)")
       [] m.q = "DSTTypeK" ->
            IF f = "Binary(4)" THEN m ELSE set("Invalid", "Invalid(114)")
       [] OTHER -> m

BeginData(m0) ==
  IF m0.form = "VIB" THEN [m0 EXCEPT !.ph = "DONE"]      \* value information alone
  ELSE LET m == Settle(m0)  f == Field(m.dif) IN
       CASE f[1] = "None" -> EndRec(m, Dat("None", <<>>))
         [] f[1] = "Lvar" -> [m EXCEPT !.ph = "LV"]
         [] OTHER -> [m EXCEPT !.ph = "DATA", !.need = f[2], !.buf = <<>>]

StepDIF(m, b) ==
  IF Field(b)[1] = "Bad" THEN Reject(m, "data field")
  ELSE LET m1 == [m EXCEPT !.dif = b, !.difes = <<>>, !.obis = 0, !.q = "", !.vs = "", !.vn = <<>>,
                           !.vifes = <<>>, !.hasx = FALSE]
       IN IF b >= 128 THEN [m1 EXCEPT !.ph = "DIFE"]
          ELSE [m1 EXCEPT !.ph = IF m.form = "DIB" THEN "DONE" ELSE "VIF"]

StepREC(m, b) ==
  IF m.single THEN StepDIF(m, b)
  ELSE CASE b = 47 -> m                                      \* 2F idle filler
         [] b = 15 -> [m EXCEPT !.ph = "MFR", !.more = 0, !.buf = <<>>]
         [] b = 31 -> [m EXCEPT !.ph = "MFR", !.more = 1, !.buf = <<>>]
         [] OTHER  -> StepDIF(m, b)

StepDIFE(m, b) ==
  IF Len(m.difes) = 10 THEN Reject(m, "more than 10 DIFEs")
  ELSE LET nxt == IF m.form = "DIB" THEN "DONE" ELSE "VIF" IN
       IF b = 0 THEN [m EXCEPT !.obis = 1, !.ph = nxt]
       ELSE [m EXCEPT !.difes = Append(@, b), !.ph = IF b >= 128 THEN "DIFE" ELSE nxt]

\* after the byte that fixes the quantity
AfterVif(m, ext) == IF ext THEN [m EXCEPT !.ph = "VIFE", !.hasx = TRUE] ELSE BeginData(m)
Quantity(m, t, ext) == AfterVif([m EXCEPT !.q = t.q, !.vs = t.s], ext)

StepVIF(m, b) ==
  LET v == b % 128  ext == b >= 128 IN
  CASE v <= 122 -> Quantity(m, Tab10[v], ext)
    [] v \in {123, 125} /\ ext -> [m EXCEPT !.ph = IF v = 123 THEN "VIFA" ELSE "VIFX"]
    [] v = 124 -> [m EXCEPT !.ph = "PTL", !.ext = ext]
    [] v = 127 -> Quantity(m, [q |-> "ManufacturerSpecific", s |-> "ManufacturerSpecific"], ext)
    [] v = 126 -> Quantity(m, [q |-> "Any", s |-> "Any"], ext)
    [] OTHER -> Quantity(m, [q |-> "Invalid", s |-> "Invalid(" \o ToString(v) \o ")"], ext)

StepVIFA(m, b) == Quantity(m, Tab14[b % 128], b >= 128)
StepVIFX(m, b) ==
  IF b % 128 = 125
  THEN IF b >= 128 THEN [m EXCEPT !.ph = "VIFX2"] ELSE Reject(m, "second level extension missing")
  ELSE Quantity(m, Tab12[b % 128], b >= 128)
StepVIFX2(m, b) == Quantity(m, Tab13[b % 128], b >= 128)

EndText(m, bs) ==
  LET u == Utf8(bs) IN
  IF u[1] THEN AfterVif([m EXCEPT !.q = "PlainText", !.vs = "PlainText", !.vn = Rev(u[2]), !.buf = <<>>], m.ext)
  ELSE Reject(m, "unit text")
StepPTL(m, b) == IF b = 0 THEN EndText(m, <<>>) ELSE [m EXCEPT !.ph = "PTX", !.need = b, !.buf = <<>>]
StepPTX(m, b) == LET buf == Append(m.buf, b) IN
                 IF Len(buf) = m.need THEN EndText(m, buf) ELSE [m EXCEPT !.buf = buf]

StepVIFE(m, b) ==
  LET m1 == [m EXCEPT !.vifes = Append(@, b % 128)] IN IF b >= 128 THEN m1 ELSE BeginData(m1)

StepLV(m, b) ==
  LET n == LvarLen(b)  m1 == [m EXCEPT !.lv = b, !.need = n, !.buf = <<>>, !.ph = "DATA"] IN
  CASE n < 0 -> Reject(m, "length byte")
    [] n = 0 -> EndLvar(m1, <<>>)
    [] OTHER -> m1

StepDATA(m, b) == LET buf == Append(m.buf, b) IN
                  IF Len(buf) = m.need THEN EndData(m, buf) ELSE [m EXCEPT !.buf = buf]

----------------------------------------------------------------------------
(* Application select, application error                                   *)
StepSEL(m, b) == IF Len(m.buf) < 10 THEN [m EXCEPT !.buf = Append(@, b)] ELSE [m EXCEPT !.ign = @ + 1]
StepERR(m, b) ==
  CASE ErrName(b) /= "" -> [m EXCEPT !.ph = "IGN", !.body = <<E("AErr", ErrName(b), <<>>)>>]
    [] b = 240 -> [m EXCEPT !.ph = "REC", !.single = TRUE, !.after = "IGN",
                            !.body = <<E("AErr", "DynamicError", <<>>)>>]
    [] b >= 241 -> [m EXCEPT !.ph = "ERRM", !.buf = <<b>>]
    [] OTHER -> Reject(m, "error code")

AppStep(m, b) ==
  CASE m.ph = "DATA"  -> StepDATA(m, b)
    [] m.ph = "REJ"   -> m
    [] m.ph = "REC"   -> StepREC(m, b)
    [] m.ph = "VIF"   -> StepVIF(m, b)
    [] m.ph \in {"RAW", "MFR", "ERRM"} -> [m EXCEPT !.buf = Append(@, b)]
    [] m.ph \in {"IGN", "DONE"} -> [m EXCEPT !.ign = @ + 1]
    [] m.ph = "HDR"   -> StepHDR(m, b)
    [] m.ph = "VIFE"  -> StepVIFE(m, b)
    [] m.ph = "DIFE"  -> StepDIFE(m, b)
    [] m.ph = "PTX"   -> StepPTX(m, b)
    [] m.ph = "LV"    -> StepLV(m, b)
    [] m.ph = "VIFA"  -> StepVIFA(m, b)
    [] m.ph = "VIFX"  -> StepVIFX(m, b)
    [] m.ph = "VIFX2" -> StepVIFX2(m, b)
    [] m.ph = "PTL"   -> StepPTL(m, b)
    [] m.ph = "CI"    -> StepCI(m, b)
    [] m.ph = "SEL"   -> StepSEL(m, b)
    [] OTHER          -> StepERR(m, b)

(***************************************************************************)
(* May the data end in this state, and what is reported if it does         *)
(***************************************************************************)
SelOk(m) == m.buf /= <<>> => AppCodeOk(AppCode(m.buf))
AppOk(m) ==
  CASE m.ph \in {"RAW", "IGN", "MFR", "ERRM", "ERR", "DONE"} -> TRUE
    [] m.ph = "REC" -> ~m.single
    [] m.ph = "SEL" -> SelOk(m) /\ (m.kind = "SelectedApplicationResponse" => m.buf /= <<>>)
    [] OTHER -> FALSE

AppEv(m) == IF m.buf = <<>> THEN <<>>
            ELSE <<E("App", AppName(AppCode(m.buf)), AppBlock(m.buf))>>
BodyEvs(m) ==
  CASE m.ph = "RAW" -> <<E("Pay", "", m.buf)>>
    [] m.ph = "ERRM" -> <<E("AErr", "ManufacturerSpecific", m.buf)>>
    [] m.ph = "ERR" -> <<E("AErr", "Unspecified", <<>>)>>
    [] m.ph = "SEL" -> AppEv(m)
    [] m.ph = "REC" -> m.body \o <<E("More", "", <<0>>), E("Mfr", "", <<>>)>>
    [] m.ph = "MFR" -> m.body \o <<E("More", "", <<m.more>>), E("Mfr", "", m.buf)>>
    [] OTHER -> m.body
MsgKind(m) == IF m.kind = "ApplicationSelect" /\ m.buf = <<>> THEN "ApplicationReset" ELSE m.kind
MsgEvs(m) == <<E("Msg", MsgKind(m), m.ci)>>
             \o (IF m.kind \in HeaderlessKinds THEN <<>> ELSE m.hdr) \o BodyEvs(m)

AppRun(m, bytes) == FoldLeft(AppStep, m, bytes)

(***************************************************************************)
(* Link machine                                                            *)
(*   S; long: L1 L2 L3 C A D CS T END; short: SC SA SCS ST SEND; ACK; REJ  *)
(***************************************************************************)
LinkInit == [ph |-> "S", l |-> 0, c |-> 0, a |-> 0, sum |-> 0, n |-> 0, app |-> AppInit]
\* the control part of a step is CtlStep; the bytes of the data also go to the
\* application machine
LinkStep(x, b) ==
  IF x.ph = "D" THEN [CtlStep(x, b, TRUE) EXCEPT !.app = AppStep(x.app, b)]
  ELSE CtlStep(x, b, ControlOk(b))

LinkOk(x) == x.ph \in {"SEND", "ACK"} \/ (x.ph = "END" /\ AppOk(x.app))
LinkEvs(x) ==
  CASE x.ph = "ACK" -> <<E("Frame", "Ack", <<>>)>>
    [] x.ph = "SEND" -> <<E("Frame", "Short", <<>>), ControlEv(x.c), E("Address", "", <<x.a>>)>>
    [] OTHER -> <<E("Frame", "Long", <<>>), ControlEv(x.c), E("Address", "", <<x.a>>)>> \o MsgEvs(x.app)

LinkRun(bytes) == FoldLeft(LinkStep, LinkInit, bytes)

(***************************************************************************)
(* The envelope, said declaratively (C02): checked equivalent to the       *)
(* machine by MBusLink                                                     *)
(***************************************************************************)
SumOf(s) == FoldLeft(LAMBDA acc, b : (acc + b) % 256, 0, s)
IsAck(s) == s = <<229>>
IsShort(s) == Len(s) = 5 /\ s[1] = 16 /\ s[5] = 22 /\ s[4] = (s[2] + s[3]) % 256
IsLong(s) == /\ Len(s) >= 8 /\ s[1] = 104 /\ s[4] = 104 /\ s[2] = s[3] /\ Len(s) = s[2] + 6
             /\ s[Len(s)] = 22 /\ s[Len(s) - 1] = SumOf(SubSeq(s, 5, Len(s) - 2))
Envelope(s) == IsAck(s) \/ (IsShort(s) /\ ControlOk(s[2])) \/ (IsLong(s) /\ ControlOk(s[5]))
\* the frame a sender puts around application data
Wrap(c, a, data) ==
  LET l == Len(data) + 2 IN
  <<104, l, l, 104, c, a>> \o data \o <<(c + a + SumOf(data)) % 256, 22>>
\* how many bytes this frame announces itself to have (0: not known yet)
Announced(s) ==
  CASE s = <<>> -> 0
    [] s[1] = 229 -> 1
    [] s[1] = 16 -> 5
    [] s[1] = 104 /\ Len(s) >= 3 /\ s[2] = s[3] /\ s[2] >= 2 -> s[2] + 6
    [] OTHER -> 0
=============================================================================
