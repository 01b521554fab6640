----------------------------- MODULE MBusTables -----------------------------
(***************************************************************************)
(* The code tables and field decoders of an M-Bus receiver, as far as      *)
(* libmbus implements EN 13757-2/-3/-7: pure functions from transmitted    *)
(* bytes to reported values.  Nothing here has state; MBusParser turns     *)
(* these into the byte-at-a-time receiver.                                 *)
(*                                                                         *)
(* TLC integers have 32 bits, so every wider quantity is a sequence:       *)
(* little endian bytes (integers of a record) or little endian 16-bit      *)
(* limbs (identification, storage, tariff, block number).                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Byte == 0..255

P2Tab == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536>>
P2(i) == P2Tab[i + 1]
Bit(b, i) == (b \div P2(i)) % 2
Bits(b, lo, w) == (b \div P2(lo)) % P2(w)     \* w bits from bit lo upwards



(* A reported item: its kind, its symbolic part and its numeric part.      *)
E(e, s, n) == [e |-> e, s |-> s, n |-> n]

(***************************************************************************)
(* Link layer: the control byte (FT1.2)                                    *)
(***************************************************************************)
\* <<count-valid bit required, message>>
PrimaryFn(fn) ==
  CASE fn = 0  -> <<0, "ResetRemoteLink">>
    [] fn = 1  -> <<0, "ResetUserProcess">>
    [] fn = 3  -> <<1, "SendUserDataConfirmed">>
    [] fn = 4  -> <<0, "SendUserDataUnconfirmed">>
    [] fn = 8  -> <<0, "RequestAccessDemand">>
    [] fn = 9  -> <<0, "RequestLinkStatus">>
    [] fn = 10 -> <<1, "RequestUserData1">>
    [] fn = 11 -> <<1, "RequestUserData2">>
    [] OTHER   -> <<2, "">>

SecondaryFn(fn) ==
  CASE fn = 0  -> "ACK"
    [] fn = 1  -> "NACK"
    [] fn = 8  -> "UserData"
    [] fn = 9  -> "UserDataUnavailable"
    [] fn = 11 -> "Status"
    [] fn = 14 -> "LinkNotFunctioning"
    [] fn = 15 -> "LinkNotImplemented"
    [] OTHER   -> ""

ControlDef(b) ==
  LET fn == b % 16  fcv == Bit(b, 4)  fcb == Bit(b, 5) IN
  IF Bit(b, 7) = 1 THEN [ok |-> FALSE, ev |-> E("Control", "", <<>>)]
  ELSE IF Bit(b, 6) = 1
    THEN LET p == PrimaryFn(fn) IN
         [ok |-> p[1] = fcv, ev |-> E("Control", "Primary " \o p[2], <<fcb>>)]
    ELSE LET s == SecondaryFn(fn) IN
         [ok |-> s /= "",
          ev |-> E("Control", "Secondary " \o s \o (IF fcv = 1 THEN " Pause" ELSE " Continue"), <<fcb>>)]

ControlTab == TLCEval([b \in Byte |-> ControlDef(b)])
ControlOk(b) == ControlTab[b].ok
ControlEv(b) == ControlTab[b].ev

(***************************************************************************)
(* Transport layer: the CI field (EN 13757-7 table 1 / EN 13757-3)         *)
(***************************************************************************)
InRange(v, lo, hi) == lo <= v /\ v <= hi

CIHeaderDef(c) ==
  CASE \/ InRange(c, 0, 31)                            \* 00-1F DLMS
       \/ c \in {80, 81, 82, 84, 92, 102, 105}         \* 50 51 52 54 5C 66 69
       \/ c \in {112, 113, 120, 121}                   \* 70 71 78 79
       \/ c \in {129, 131, 134, 137}                   \* 81 83 86 89
       \/ InRange(c, 140, 144)                         \* 8C-90
       \/ InRange(c, 160, 191)                         \* A0-BF
       -> "None"
    [] c \in {90, 97, 101, 103, 106, 110, 116, 122, 123, 125,  \* 5A 61 65 67 6A 6E 74 7A 7B 7D
              136, 138, 158, 193, 196}                         \* 88 8A 9E C1 C4
       -> "Short"
    [] \/ c \in {83, 85, 91, 95, 96, 100, 104}         \* 53 55 5B 5F 60 64 68
       \/ InRange(c, 107, 109)                         \* 6B-6D
       \/ c \in {111, 114, 115, 117, 124}              \* 6F 72 73 75 7C
       \/ c \in {128, 130, 132, 133, 135, 139, 159}    \* 80 82 84 85 87 8B 9F
       \/ c \in {192, 194, 195, 197}                   \* C0 C2 C3 C5
       -> "Long"
    [] OTHER -> "Reserved"

\* <<kind, body form, does the message report its CI value>>
CIKindDef(c) ==
  CASE InRange(c, 0, 31) \/ c \in {96, 97, 124, 125}   -> <<"Dlms", "RAW", TRUE>>
    [] c \in {95, 158, 159}                            -> <<"SpecificUsage", "RAW", TRUE>>
    [] InRange(c, 128, 131) \/ InRange(c, 134, 143)    -> <<"Wireless", "IGN", TRUE>>
    [] c = 144                                         -> <<"AuthenticationAndFrgamentation", "RAW", FALSE>>
    [] InRange(c, 160, 183)                            -> <<"ManufacturerSpecific", "RAW", TRUE>>
    [] InRange(c, 192, 194)                            -> <<"ImageTransfer", "RAW", TRUE>>
    [] InRange(c, 195, 197)                            -> <<"SecurityTransfer", "RAW", TRUE>>
    [] c \in {80, 83}                                  -> <<"ApplicationSelect", "SEL", FALSE>>
    [] c \in {84, 85}                                  -> <<"SelectedApplicationRequest", "IGN", FALSE>>
    [] c \in {102, 103, 104}                           -> <<"SelectedApplicationResponse", "SEL", FALSE>>
    [] c = 82                                          -> <<"SelectionOfDevice", "RAW", FALSE>>
    [] c = 92                                          -> <<"SynchroniseAction", "IGN", FALSE>>
    [] c = 184 -> <<"SetBaudRate Rate300", "IGN", FALSE>>
    [] c = 185 -> <<"SetBaudRate Rate600", "IGN", FALSE>>
    [] c = 186 -> <<"SetBaudRate Rate1200", "IGN", FALSE>>
    [] c = 187 -> <<"SetBaudRate Rate2400", "IGN", FALSE>>
    [] c = 188 -> <<"SetBaudRate Rate4800", "IGN", FALSE>>
    [] c = 189 -> <<"SetBaudRate Rate9600", "IGN", FALSE>>
    [] c = 190 -> <<"SetBaudRate Rate19200", "IGN", FALSE>>
    [] c = 191 -> <<"SetBaudRate Rate38400", "IGN", FALSE>>
    [] c = 108                                         -> <<"TimeSyncToDevice", "RAW", FALSE>>
    [] c = 109                                         -> <<"TimeAdjustmentToDevice", "RAW", FALSE>>
    [] c \in {81, 90, 91}                              -> <<"CommandToDevice", "RAW", FALSE>>
    [] c \in {110, 111, 112}                           -> <<"ApplicationErrorFromDevice", "ERR", FALSE>>
    [] c \in {113, 116, 117}                           -> <<"AlarmFromDevice", "RAW", FALSE>>
    [] c \in {114, 120, 122}                           -> <<"ResponseFromDevice", "REC", FALSE>>
    [] OTHER                                           -> <<"Unsupported", "REJ", FALSE>>

CITab == TLCEval([c \in Byte |->
           [hdr |-> CIHeaderDef(c), kind |-> CIKindDef(c)[1],
            form |-> IF CIHeaderDef(c) = "Reserved" THEN "REJ" ELSE CIKindDef(c)[2],
            ci |-> IF CIKindDef(c)[3] THEN <<c>> ELSE <<>>]])

\* kinds that have no header of their own in the reported message
HeaderlessKinds == {"SelectionOfDevice", "SynchroniseAction", "AuthenticationAndFrgamentation",
                    "ManufacturerSpecific",
                    "SetBaudRate Rate300", "SetBaudRate Rate600", "SetBaudRate Rate1200",
                    "SetBaudRate Rate2400", "SetBaudRate Rate4800", "SetBaudRate Rate9600",
                    "SetBaudRate Rate19200", "SetBaudRate Rate38400"}

(***************************************************************************)
(* Transport layer: header fields                                          *)
(***************************************************************************)
Letters == <<"@","A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S",
             "T","U","V","W","X","Y","Z","[","\\","]","^","_">>
ManCode(lo, hi) == lo + 256 * hi
Letter(code, k) == Bits(code, 10 - 5 * k, 5)      \* k = 0, 1, 2: the k-th letter
ManString(code) == Letters[Letter(code, 0) + 1] \o Letters[Letter(code, 1) + 1] \o Letters[Letter(code, 2) + 1]
ManValid(code) == \A k \in 0..2 : InRange(Letter(code, k), 1, 26)
\* the code assigned to three letters has no 16th bit
ManPack(a, b, c) == a * 1024 + b * 32 + c

DeviceTypeDef(v) ==
  CASE v = 0 -> "Other"  [] v = 1 -> "OilMeter"  [] v = 2 -> "ElectricityMeter"
    [] v = 3 -> "GasMeter"  [] v = 4 -> "ThermalEnergyMeter(OutletHeat)"
    [] v = 5 -> "SteamMeter"  [] v = 6 -> "WaterMeter(Warm)"  [] v = 7 -> "WaterMeter(Potable)"
    [] v = 8 -> "HeatCostAllocator"  [] v = 9 -> "CompressedAir"
    [] v = 10 -> "ThermalEnergyMeter(OutletCooling)"
    [] v = 11 -> "ThermalEnergyMeter(InletCooling)"
    [] v = 12 -> "ThermalEnergyMeter(InletHeat)"
    [] v = 13 -> "ThermalEnergyMeter(Combined)"
    [] v = 14 -> "BusOrSystemComponent"  [] v = 15 -> "Unknown"
    [] v = 16 -> "WaterMeter(Irrigation)"  [] v = 17 -> "WaterDataLogger"
    [] v = 18 -> "GasDataLogger"  [] v = 19 -> "GasConverter"  [] v = 20 -> "CalorificValue"
    [] v = 21 -> "WaterMeter(Hot)"  [] v = 22 -> "WaterMeter(Cold)"
    [] v = 23 -> "WaterMeter(DualRegister)"  [] v = 24 -> "PressureMeter"
    [] v = 25 -> "ADConverter"  [] v = 26 -> "SmokeDetector"  [] v = 27 -> "RoomSensor"
    [] v = 28 -> "GasDetector"  [] InRange(v, 29, 31) -> "ReservedSensor"
    [] v = 32 -> "ElectricalBreaker"  [] v = 33 -> "Valve"
    [] InRange(v, 34, 36) -> "ReservedSwitchingDevice"  [] v = 37 -> "CustomerUnit"
    [] v \in {38, 39} -> "ReservedCustomerUnit"  [] v = 40 -> "WaterMeter(Waste)"
    [] v = 41 -> "Garbage"  [] v = 42 -> "ReservedCO2"
    [] InRange(v, 43, 47) -> "ReservedEnvironmental"  [] v = 48 -> "ServiceTool"
    [] v = 49 -> "CommunicationController"  [] v = 50 -> "UnidirectionalRepeater"
    [] v = 51 -> "BidirectionalRepeater"  [] v \in {52, 53} -> "ReservedSystemDevice"
    [] v = 54 -> "RadioConverterSystemSide"  [] v = 55 -> "RadioConverterMeterSide"
    [] v = 56 -> "BusConverterMeterSide"  [] InRange(v, 57, 63) -> "ReservedSystemDevice"
    [] v = 255 -> "Wildcard"  [] OTHER -> "Reserved"
DeviceTypeTab == TLCEval([v \in Byte |-> DeviceTypeDef(v)])

(* Device names: first row that matches manufacturer, version range and    *)
(* (unless "") device type.                                                *)
DN(man, lo, hi, ty, name) == [man |-> man, lo |-> lo, hi |-> hi, ty |-> ty, name |-> name]
EL == "ElectricityMeter"
NameRows == <<
  DN("ABB", 2, 2, "", "ABB Delta-Meter"), DN("ABB", 32, 32, "", "ABB B21 113-100"),
  DN("ACW", 9, 9, "", "Itron CF Echo 2"), DN("ACW", 10, 10, "", "Itron CF 51"),
  DN("ACW", 11, 11, "", "Itron CF 55"), DN("ACW", 14, 14, "", "Itron BM +m"),
  DN("ACW", 15, 15, "", "Itron CF 800"), DN("ACW", 20, 20, "", "Itron CYBLE M-Bus 1.4"),
  DN("AMT", 0, 63, "", "Aquametro AMTRON"), DN("AMT", 64, 127, "", "Aquametro SAPHIR"),
  DN("AMT", 128, 191, "", "Aquametro CALEC MB"), DN("AMT", 192, 255, "", "Aquametro CALEC ST"),
  DN("BEC", 0, 0, EL, "Berg DCMi"), DN("BEC", 7, 7, EL, "Berg BLMi"),
  DN("BEC", 113, 113, "Unknown", "Berg BMB-10S0"),
  DN("EFE", 0, 0, "WaterMeter(Warm)", "Engelmann WaterStar"),
  DN("EFE", 0, 0, "", "Engelmann / Elster SensoStar 2"), DN("EFE", 1, 1, "", "Engelmann SensoStar 2C"),
  DN("ELS", 2, 2, "", "Elster TMP-A"), DN("ELS", 10, 10, "", "Elster Falcon"),
  DN("ELS", 47, 47, "", "Elster F96 Plus"),
  DN("ELV", 20, 29, "", "Elvaco CMa10"), DN("ELV", 50, 59, "", "Elvaco CMa11"),
  DN("EMH", 0, 0, "", "EMH DIZ"),
  DN("EMU", 16, 16, EL, "EMU Professional 3/75 M-Bus"),
  DN("GAV", 45, 48, EL, "Carlo Gavazzi EM24"), DN("GAV", 57, 58, EL, "Carlo Gavazzi EM21"),
  DN("GAV", 64, 64, EL, "Carlo Gavazzi EM33"),
  DN("GMC", 230, 230, "", "GMC-I A230 EMMOD 206"),
  DN("HYD", 40, 40, "", "ABB F95 Typ US770"), DN("HYD", 47, 47, "", "Hydrometer Sharky 775"),
  DN("JAN", 9, 9, EL, "Janitza UMG 96S"),
  DN("KAM", 1, 1, "", "Kamstrup 382 (6850-005)"), DN("KAM", 8, 8, "", "Kamstrup Multical 601"),
  DN("LSE", 153, 153, "", "Siemens WFH21"),
  DN("LUG", 2, 2, "", "Landis & Gyr Ultraheat 2WR5"), DN("LUG", 3, 3, "", "Landis & Gyr Ultraheat 2WR6"),
  DN("LUG", 4, 4, "", "Landis & Gyr Ultraheat UH50"), DN("LUG", 7, 7, "", "Landis & Gyr Ultraheat T230"),
  DN("NZR", 1, 1, "", "NZR DHZ 5/63"), DN("NZR", 80, 80, "", "NZR IC-M2"),
  DN("RAM", 3, 3, "", "Rossweiner ETK/ETW Modularis"),
  DN("REL", 8, 8, "", "Relay PadPuls M1"), DN("REL", 18, 18, "", "Relay PadPuls M4"),
  DN("REL", 32, 32, "", "Relay Padin 4"), DN("REL", 48, 48, "", "Relay AnDi 4"),
  DN("REL", 64, 64, "", "Relay PadPuls M2"),
  DN("RKE", 105, 105, "", "Ista sensonic II mbus"),
  DN("SBC", 16, 16, "", "Saia-Burgess ALE3"), DN("SBC", 25, 25, "", "Saia-Burgess ALE3"),
  DN("SBC", 17, 17, "", "Saia-Burgess AWD3"),
  DN("SEN", 8, 8, "", "Sensus PolluCom E"), DN("SEN", 25, 25, "", "Sensus PolluCom E"),
  DN("SEN", 11, 11, "", "Sensus PolluTherm"), DN("SEN", 14, 14, "", "Sensus PolluStat E"),
  DN("SEO", 48, 48, "", "Sensoco PT100"), DN("GTE", 48, 48, "", "Sensoco PT100"),
  DN("SEO", 65, 65, "", "Sensoco 2-NTC"), DN("GTE", 65, 65, "", "Sensoco 2-NTC"),
  DN("SEO", 69, 69, "", "Sensoco Laser Light"), DN("GTE", 69, 69, "", "Sensoco Laser Light"),
  DN("SEO", 72, 72, "", "Sensoco ADIO"), DN("GTE", 72, 72, "", "Sensoco ADIO"),
  DN("SEO", 81, 81, "", "Sensoco THU"), DN("GTE", 81, 81, "", "Sensoco THU"),
  DN("SEO", 97, 97, "", "Sensoco THU"), DN("GTE", 97, 97, "", "Sensoco THU"),
  DN("SEO", 128, 128, "", "Sensoco PulseCounter for E-Meter"),
  DN("GTE", 128, 128, "", "Sensoco PulseCounter for E-Meter"),
  DN("SLB", 2, 2, "", "Allmess Megacontrol CF-50"), DN("SLB", 6, 6, "", "CF Compact / Integral MK MaXX"),
  DN("SON", 13, 13, "", "Sontex Supercal 531"),
  DN("SPX", 49, 49, "", "Sensus PolluTherm"), DN("SPX", 52, 52, "", "Sensus PolluTherm"),
  DN("SVM", 8, 8, "", "Elster F2 / Deltamess F2"), DN("SVM", 9, 9, "", "Elster F4 / Kamstrup SVM F22"),
  DN("TCH", 38, 38, "", "Techem m-bus S"), DN("TCH", 64, 64, "", "Techem ultra S3"),
  DN("WZG", 3, 3, "", "Modularis ETW-EAX"),
  DN("ZRM", 129, 129, "", "Minol Minocal C2"), DN("ZRM", 130, 130, "", "Minol Minocal WR3") >>

NamedMan == TLCEval({NameRows[i].man : i \in 1..Len(NameRows)})
\* rows of one manufacturer, in order: TLC looks names up per manufacturer
NameIdx == TLCEval([m \in NamedMan |-> SelectSeq(NameRows, LAMBDA r : r.man = m)])
VersionInId == {"SBC", "SEO", "GTE"}

DeviceName(id4, code, ver, ty) ==
  LET man == ManString(code)
      v   == IF man \in VersionInId THEN id4 ELSE ver
      ok(r) == r.lo <= v /\ v <= r.hi /\ (r.ty = "" \/ r.ty = ty)
  IN IF code >= 32768 \/ man \notin NamedMan THEN "-"
     ELSE LET hits == SelectSeq(NameIdx[man], ok) IN
          IF hits = <<>> THEN "-" ELSE hits[1].name

StatusApp == <<"None", "Busy", "Error", "Alarm">>
StatusEv(b) == E("Status", StatusApp[(b % 4) + 1],
                 <<Bit(b, 7), Bit(b, 6), Bit(b, 5), Bit(b, 4), Bit(b, 3), Bit(b, 2)>>)

\* configuration field: mode in the low five bits of the second byte
ReservedModes == {6, 11, 12, 14} \cup 16..31
CfgMode(hi) == hi % 32
CfgOk(lo, hi) == \/ lo = 0 /\ hi = 0
                 \/ CfgMode(hi) \in ReservedModes
CfgEv(lo, hi) == IF CfgMode(hi) = 0 THEN E("Cfg", "None", <<>>)
                 ELSE E("Cfg", "Reserved", <<lo + 256 * hi>>)

Digits2Ok(b) == b % 16 < 10 /\ b \div 16 < 10

(***************************************************************************)
(* Wide numbers: little endian 16-bit limbs                                *)
(***************************************************************************)
\* x * k + c for limbs x, k <= 256 * 100 (no 32-bit overflow)
RECURSIVE MulAddR(_, _, _, _)
MulAddR(x, k, c, i) ==
  IF i > Len(x) THEN <<>>
  ELSE LET t == x[i] * k + c IN <<t % 65536>> \o MulAddR(x, k, t \div 65536, i + 1)
MulAdd(x, k, c) == MulAddR(x, k, c, 1)
Zero4 == <<0, 0, 0, 0>>
\* two's complement negation of four limbs
Neg4(x) == IF x = Zero4 THEN x
           ELSE LET first == CHOOSE i \in 1..4 : x[i] /= 0 /\ \A j \in 1..(i - 1) : x[j] = 0 IN
                [i \in 1..4 |-> IF i < first THEN 0 ELSE IF i = first THEN 65536 - x[i] ELSE 65535 - x[i]]
LimbBytes(x) == [i \in 1..(2 * Len(x)) |->
                   IF i % 2 = 1 THEN x[(i + 1) \div 2] % 256 ELSE x[i \div 2] \div 256]
BytesLimbs(b) == [i \in 1..(Len(b) \div 2) |-> b[2 * i - 1] + 256 * b[2 * i]]
\* value of a sequence of bits (lowest first) as n limbs
BitsLimbs(bs, n) ==
  [j \in 1..n |-> FoldLeft(LAMBDA acc, t : acc + (IF 16 * (j - 1) + t < Len(bs)
                                                  THEN bs[16 * (j - 1) + t + 1] * P2(t) ELSE 0),
                           0, <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>)]

(***************************************************************************)
(* Data encodings                                                          *)
(***************************************************************************)
Pad(bs, fill) == [i \in 1..8 |-> IF i <= Len(bs) THEN bs[i] ELSE fill]
UnsignedBytes(bs) == Pad(bs, 0)
SignedBytes(bs) == Pad(bs, IF Len(bs) > 0 /\ bs[Len(bs)] >= 128 THEN 255 ELSE 0)

\* a real is its bit pattern, also that of a NaN (C14)
RealEv(bs) == E("Data", "Real", bs)

\* BCD, least significant byte first; the top digit may be F = minus
BcdOk(bs) == \A i \in 1..Len(bs) :
               /\ bs[i] % 16 < 10
               /\ (bs[i] \div 16 < 10 \/ (i = Len(bs) /\ bs[i] \div 16 = 15))
BcdNeg(bs) == Len(bs) > 0 /\ bs[Len(bs)] \div 16 = 15
BcdMag(bs) ==
  LET two(i) == LET hi == bs[i] \div 16 IN (IF hi = 15 THEN 0 ELSE hi) * 10 + (bs[i] % 16)
  IN FoldLeft(LAMBDA acc, i : MulAdd(acc, 100, two(i)), Zero4, [k \in 1..Len(bs) |-> Len(bs) + 1 - k])
BcdBytes(bs, negate) ==
  LET m == BcdMag(bs) IN LimbBytes(IF BcdNeg(bs) \/ negate THEN Neg4(m) ELSE m)
HexChar(d) == IF d < 10 THEN 48 + d ELSE 55 + d
BcdText(bs) ==
  LET n == Len(bs)
      dig(k) == LET b == bs[n - (k \div 2)] IN IF k % 2 = 0 THEN b \div 16 ELSE b % 16
  IN [k \in 1..(2 * n) |-> IF k = 1 /\ dig(0) = 15 THEN 45 ELSE HexChar(dig(k - 1))]

\* Windows-1252: only 80-9F differ from the code point
Win1252Tab == <<8364, 129, 8218, 402, 8222, 8230, 8224, 8225, 710, 8240, 352, 8249, 338, 141, 381, 143,
                144, 8216, 8217, 8220, 8221, 8226, 8211, 8212, 732, 8482, 353, 8250, 339, 157, 382, 376>>
Win1252(b) == IF InRange(b, 128, 159) THEN Win1252Tab[b - 127] ELSE b
Latin1Text(bs) == [i \in 1..Len(bs) |-> Win1252(bs[Len(bs) + 1 - i])]

\* UTF-8 (plain text units): <<ok, code points>>
Cont(b) == InRange(b, 128, 191)
RECURSIVE Utf8R(_, _, _)
Utf8R(bs, i, acc) ==
  IF i > Len(bs) THEN <<TRUE, acc>>
  ELSE LET b == bs[i]
           at(k) == IF i + k <= Len(bs) THEN bs[i + k] ELSE 0
       IN IF b < 128 THEN Utf8R(bs, i + 1, Append(acc, b))
          ELSE IF InRange(b, 194, 223) /\ Cont(at(1))
            THEN Utf8R(bs, i + 2, Append(acc, (b % 32) * 64 + (at(1) % 64)))
          ELSE IF InRange(b, 224, 239) /\ Cont(at(1)) /\ Cont(at(2))
                  /\ (b = 224 => at(1) >= 160) /\ (b = 237 => at(1) < 160)
            THEN Utf8R(bs, i + 3, Append(acc, (b % 16) * 4096 + (at(1) % 64) * 64 + (at(2) % 64)))
          ELSE IF InRange(b, 240, 244) /\ Cont(at(1)) /\ Cont(at(2)) /\ Cont(at(3))
                  /\ (b = 240 => at(1) >= 144) /\ (b = 244 => at(1) < 144)
            THEN Utf8R(bs, i + 4, Append(acc, (b % 8) * 262144 + (at(1) % 64) * 4096
                                              + (at(2) % 64) * 64 + (at(3) % 64)))
          ELSE <<FALSE, <<>>>>
Utf8(bs) == IF \A i \in 1..Len(bs) : bs[i] < 128 THEN <<TRUE, bs>> ELSE Utf8R(bs, 1, <<>>)
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(***************************************************************************)
(* Dates and times (EN 13757-3 annex A types F, G, I, J, K)                *)
(***************************************************************************)
MinuteOk(v) == v <= 59 \/ v = 63
HourOk(v) == v <= 23 \/ v = 31
Fail == [ok |-> FALSE, s |-> "", n |-> <<>>]
DmyYear(a, b) == a \div 32 + 8 * (b \div 16)
DmyOk(a, b) == /\ ~(a = 255 /\ b = 255)
               /\ (b % 16 <= 12 \/ b % 16 = 15)
               /\ (DmyYear(a, b) <= 99 \/ DmyYear(a, b) = 127)

DateG(b) == [ok |-> DmyOk(b[1], b[2]), s |-> "Date",
             n |-> <<b[1] % 32, b[2] % 16, DmyYear(b[1], b[2])>>]

DateF(b) ==
  LET min == b[1] % 64  hr == b[2] % 32  hy == Bits(b[2], 5, 2)  y == DmyYear(b[3], b[4]) IN
  [ok |-> b[1] < 64 /\ MinuteOk(min) /\ HourOk(hr) /\ DmyOk(b[3], b[4]), s |-> "DateTimeF",
   n |-> <<min, hr, b[3] % 32, b[4] % 16, y, IF hy = 0 /\ y <= 80 THEN 1 ELSE hy, Bit(b[2], 7)>>]

DateI(b) ==
  LET sec == b[1] % 64  min == b[2] % 64  hr == b[3] % 32  off == b[6] \div 64 IN
  [ok |-> /\ MinuteOk(sec) /\ Bit(b[2], 7) = 0 /\ MinuteOk(min) /\ HourOk(hr)
          /\ DmyOk(b[4], b[5]) /\ b[6] % 64 <= 53,
   s |-> "DateTimeI",
   n |-> <<sec, min, hr, b[4] % 32, b[5] % 16, DmyYear(b[4], b[5]), b[3] \div 32, b[6] % 64,
           Bit(b[1], 6), Bit(b[1], 7), IF Bit(b[2], 6) = 1 THEN off ELSE -off>>]

TimeJ(b) ==
  [ok |-> /\ b[1] < 64 /\ MinuteOk(b[1]) /\ b[2] < 64 /\ MinuteOk(b[2]) /\ b[3] < 32 /\ HourOk(b[3]),
   s |-> "Time", n |-> <<b[1], b[2], b[3]>>]

DstK(b) ==
  LET loc == b[1] \div 32 + 8 * Bits(b[2], 5, 2)  dev == Bits(b[3], 5, 2) IN
  [ok |-> /\ HourOk(b[1] % 32) /\ b[2] % 32 >= 1 /\ b[3] % 32 >= 1
          /\ InRange(b[4] \div 16, 1, 12) /\ InRange(b[4] % 16, 1, 12) /\ HourOk(loc),
   s |-> "DST",
   n |-> <<b[1] % 32, b[2] % 32, b[4] % 16, b[3] % 32, b[4] \div 16, Bit(b[2], 7),
           IF Bit(b[3], 7) = 1 THEN dev ELSE -dev, loc>>]

(***************************************************************************)
(* Value information tables, written as the standard writes them: E, then  *)
(* the seven bits with n / p for the variable ones.  First row wins.       *)
(***************************************************************************)
ChAt(s, i) == SubSeq(s, i, i)
\* the bits of a pattern "E000 0nnn" (without the E), most significant first
PatBits(p) == [i \in 1..(Len(p) - 2) |-> IF i <= 3 THEN ChAt(p, i + 1) ELSE ChAt(p, i + 2)]
PatMatch(p, v) ==
  LET bs == PatBits(p)  n == Len(bs) IN
  /\ v < P2(n)
  /\ \A i \in 1..n : CASE bs[i] = "0" -> Bit(v, n - i) = 0
                       [] bs[i] = "1" -> Bit(v, n - i) = 1
                       [] OTHER -> TRUE
PatVars(p) == LET bs == PatBits(p) IN Cardinality({i \in 1..Len(bs) : bs[i] \in {"n", "p"}})
PatVal(p, v) == v % P2(PatVars(p))

DurN == <<"Seconds", "Minutes", "Hours", "Days">>
DurP == <<"Hours", "Days", "Months", "Years">>

\* k: "exp" (unit and) exponent n + off, "nn"/"pp" duration, "unit" fixed unit,
\*    "plain" nothing, "code" the code itself with its table's name
Row(p, name, unit, k, off) == [p |-> p, name |-> name, unit |-> unit, k |-> k, off |-> off]
X(p, name, unit, off) == Row(p, name, unit, "exp", off)
N(p, name) == Row(p, name, "", "nn", 0)
PP(p, name) == Row(p, name, "", "pp", 0)
U(p, name, unit) == Row(p, name, unit, "unit", 0)
Z(p, name) == Row(p, name, "", "plain", 0)
Code(p, name) == Row(p, name, "", "code", 0)

Rows10 == <<
  X("E000 0nnn", "Energy", "Wh", -3), X("E000 1nnn", "Energy", "J", 0),
  X("E001 0nnn", "Volume", "M3", -6), X("E001 1nnn", "Mass", "Kg", -3),
  N("E010 00nn", "OnTime"), N("E010 01nn", "OperatingTime"),
  X("E010 1nnn", "Power", "W", -3), X("E011 0nnn", "Power", "Jph", 0),
  X("E011 1nnn", "VolumeFlow", "Hours", -6), X("E100 0nnn", "VolumeFlow", "Minutes", -7),
  X("E100 1nnn", "VolumeFlow", "Seconds", -9), X("E101 0nnn", "MassFlow", "Hours", -3),
  X("E101 10nn", "FlowTemperature", "", -3), X("E101 11nn", "ReturnTemperature", "", -3),
  X("E110 00nn", "TemperatureDifference", "", -3), X("E110 01nn", "ExternalTemperature", "", -3),
  X("E110 10nn", "Pressure", "", -3), Z("E110 1100", "TypeGDate"), Z("E110 1101", "VariableDateTime"),
  Z("E110 1110", "HCA"), N("E111 00nn", "AveragingDuration"), N("E111 01nn", "ActualityDuration"),
  Z("E111 1000", "FabricationNumber"), Z("E111 1001", "EnhancedIdentification"), Z("E111 1010", "Address"),
  Code("Ennn nnnn", "ReservedCode") >>

Rows12 == <<
  X("E000 00nn", "Credit", "", -3), X("E000 01nn", "Debit", "", -3),
  Z("E000 1000", "UniqueMessageIdentification"), Z("E000 1001", "DeviceType"),
  Z("E000 1010", "Manufacturer"), Z("E000 1011", "ParameterSetIdentification"),
  Z("E000 1100", "ModelVersion"), Z("E000 1101", "HardwareVersionNumber"),
  Z("E000 1110", "MetrologyFirmwareVersionNumber"), Z("E000 1111", "OtherSoftwareVersionNumber"),
  Z("E001 0000", "CustomerLocation"), Z("E001 0001", "Customer"),
  Z("E001 0010", "AccessCodeUser"), Z("E001 0011", "AccessCodeOperator"),
  Z("E001 0100", "AccessCodeSystemOperator"), Z("E001 0101", "AccessCodeDeveloper"),
  Z("E001 0110", "Password"), Z("E001 0111", "ErrorFlags"), Z("E001 1000", "ErrorMask"),
  Z("E001 1001", "SecurityKey"), Z("E001 1010", "DigitalOutput"), Z("E001 1011", "DigitalInput"),
  Z("E001 1100", "BaudRate"), Z("E001 1101", "ResponseDelayTime"), Z("E001 1110", "Retry"),
  Z("E001 1111", "RemoteControl"), Z("E010 0000", "FirstStorageNumberForCyclicStorage"),
  Z("E010 0001", "LastStorageNumberForCyclicStorage"), Z("E010 0010", "SizeOfStorageBlock"),
  Z("E010 0011", "DescriptorForTariffAndSubunit"), N("E010 01nn", "StorageInterval"),
  U("E010 1000", "StorageInterval", "Months"), U("E010 1001", "StorageInterval", "Years"),
  Z("E010 1010", "OperatorSpecific"), Z("E010 1011", "TimePointSecond"),
  N("E010 11nn", "DurationSinceLastReadout"), Z("E011 0000", "StartDateTimeOfTariff"),
  N("E011 00nn", "DurationOfTariff"), N("E011 01nn", "PeriodOfTarrif"),
  U("E011 1000", "PeriodOfTarrif", "Months"), U("E011 1001", "PeriodOfTarrif", "Years"),
  Z("E011 1010", "Dimensionless"), Z("E011 1011", "WirelessContainer"),
  N("E011 11nn", "PeriodOfNominalDataTransmissions"),
  X("E100 nnnn", "Volts", "", -9), X("E101 nnnn", "Amperes", "", -12),
  Z("E110 0000", "ResetCounter"), Z("E110 0001", "CumulationCounter"), Z("E110 0010", "ControlSignal"),
  Z("E110 0011", "DayOfWeek"), Z("E110 0100", "WeekNumber"), Z("E110 0101", "TimePointOfDayChange"),
  Z("E110 0110", "StateOfParameterActivation"), Z("E110 0111", "SpecialSupplierInformation"),
  PP("E110 10pp", "DurationSinceLastCumulation"), PP("E110 11pp", "OperatingTimeBattery"),
  Z("E111 0000", "DateAndTimeOfBatteryChange"), Z("E111 0001", "RFLevel"), Z("E111 0010", "DSTTypeK"),
  Z("E111 0011", "ListeningWindowManagement"), U("E111 0100", "RemainingBatteryLife", "Days"),
  Z("E111 0101", "NumberTimesMeterStopped"), Z("E111 0110", "ManufacturerSpecificContainer"),
  Code("Ennn nnnn", "ReservedCode") >>

Rows13 == <<
  Z("E000 0000", "CurrentlySelectedApplication"), U("E000 0010", "RemainingBatteryLife", "Months"),
  U("E000 0011", "RemainingBatteryLife", "Years"), Code("Ennn nnnn", "ReservedCode") >>

Rows14 == <<
  X("E000 000n", "Energy", "MWh", -1), X("E000 001n", "ReactiveEnergy", "", 0),
  X("E000 010n", "ApparentEnergy", "", 0), X("E000 100n", "Energy", "GJ", -1),
  X("E000 11nn", "Energy", "MCal", -1), X("E001 000n", "Volume", "M3", 2),
  X("E001 01nn", "ReactivePower", "", -3), X("E001 100n", "Mass", "T", 2),
  X("E001 101n", "RelativeHumidity", "", -1), X("E010 0000", "Volume", "Feet3", 0),
  X("E010 0001", "Volume", "Feet3", -1),
  Code("E010 001n", "RetiredCode"), Code("E010 010n", "RetiredCode"), Code("E010 0110", "RetiredCode"),
  X("E010 100n", "Power", "MW", -1), Z("E010 1010", "PhaseUU"), Z("E010 1011", "PhaseUI"),
  X("E010 11nn", "Frequency", "", -3), X("E011 000n", "Power", "GJph", -1),
  X("E011 01nn", "ApparentPower", "", -1),
  Code("E101 1nnn", "RetiredCode"), Code("E110 0nnn", "RetiredCode"),
  Z("E110 1000", "ResultingPowerFactorK"), Z("E110 1001", "ThermalOutputRatingFactorKq"),
  Z("E110 1010", "ThermalCouplingRatingFactorOverallKc"),
  Z("E110 1011", "ThermalCouplingRatingFactorRoomSideKcr"),
  Z("E110 1100", "ThermalCouplingRatingFactorHeaterSideKch"),
  Z("E110 1101", "LowTemperatureRatingFactorKt"), Z("E110 1110", "DisplayOutputScalingFactorKD"),
  Code("E111 00nn", "RetiredCode"), X("E111 01nn", "ColdWarmTemperatureLimit", "", -3),
  X("E111 1nnn", "CumulativeMaxOfActivePower", "", -3),
  Code("Ennn nnnn", "ReservedCode") >>

RowOf(rows, v) == rows[CHOOSE i \in 1..Len(rows) :
                         PatMatch(rows[i].p, v) /\ \A j \in 1..(i - 1) : ~PatMatch(rows[j].p, v)]
VifText(r, v, table) ==
  LET pv == PatVal(r.p, v) IN
  CASE r.k = "exp"  -> r.name \o "(" \o (IF r.unit = "" THEN "" ELSE r.unit \o ", ") \o ToString(pv + r.off) \o ")"
    [] r.k = "nn"   -> r.name \o "(" \o DurN[(pv % 4) + 1] \o ")"
    [] r.k = "pp"   -> r.name \o "(" \o DurP[(pv % 4) + 1] \o ")"
    [] r.k = "unit" -> r.name \o "(" \o r.unit \o ")"
    [] r.k = "plain" -> r.name
    [] OTHER        -> r.name \o "(" \o table \o ", " \o ToString(v) \o ")"
\* the quantity (for signedness and dates) and its full text
VifTab(rows, table) ==
  [v \in 0..127 |-> LET r == RowOf(rows, v) IN [q |-> r.name, s |-> VifText(r, v, table)]]
Tab10 == TLCEval(VifTab(Rows10, "Table10"))
Tab12 == TLCEval(VifTab(Rows12, "Table12"))
Tab13 == TLCEval(VifTab(Rows13, "Table13"))
Tab14 == TLCEval(VifTab(Rows14, "Table14"))

UnsignedQuantities == {
  "UniqueMessageIdentification", "DeviceType", "Manufacturer", "ParameterSetIdentification",
  "ModelVersion", "HardwareVersionNumber", "MetrologyFirmwareVersionNumber",
  "OtherSoftwareVersionNumber", "CustomerLocation", "Customer", "AccessCodeUser",
  "AccessCodeOperator", "AccessCodeDeveloper", "Password", "ErrorMask", "SecurityKey", "BaudRate",
  "ResponseDelayTime", "FirstStorageNumberForCyclicStorage", "LastStorageNumberForCyclicStorage",
  "SizeOfStorageBlock", "DescriptorForTariffAndSubunit", "TimePointSecond",
  "DurationSinceLastReadout", "DurationOfTariff", "PeriodOfTarrif",
  "PeriodOfNominalDataTransmissions", "DayOfWeek", "WeekNumber", "StateOfParameterActivation",
  "SpecialSupplierInformation", "DurationSinceLastCumulation", "RemainingBatteryLife",
  "NumberTimesMeterStopped", "RelativeHumidity", "ResultingPowerFactorK",
  "ThermalCouplingRatingFactorHeaterSideKch", "ThermalCouplingRatingFactorOverallKc",
  "ThermalCouplingRatingFactorRoomSideKcr", "ThermalOutputRatingFactorKq" }

(***************************************************************************)
(* Data information byte                                                   *)
(***************************************************************************)
Functions4 == <<"InstantaneousValue", "MaximumValue", "MinimumValue", "ValueDuringErrorState">>
\* data field: <<kind, width in bytes, reported form>>
FieldTab == <<
  <<"None", 0, "None">>, <<"Bin", 1, "Binary(1)">>, <<"Bin", 2, "Binary(2)">>, <<"Bin", 3, "Binary(3)">>,
  <<"Bin", 4, "Binary(4)">>, <<"Real", 4, "Real">>, <<"Bin", 6, "Binary(6)">>, <<"Bin", 8, "Binary(8)">>,
  <<"Bad", 0, "">>, <<"Bcd", 1, "BCD(1)">>, <<"Bcd", 2, "BCD(2)">>, <<"Bcd", 3, "BCD(3)">>,
  <<"Bcd", 4, "BCD(4)">>, <<"Lvar", 0, "LVAR">>, <<"Bcd", 6, "BCD(6)">>, <<"Bad", 0, "">> >>
Field(dif) == FieldTab[(dif % 16) + 1]

(***************************************************************************)
(* Application messages                                                    *)
(***************************************************************************)
AppNames == <<"All", "UserData", "SimpleBilling", "EnhancedBilling", "MultiTariffBilling",
  "InstantaneousValues", "LoadProfileValuesForManagement", "StaticContent", "InstallationAndStartup",
  "Testing", "Calibration", "Manufacturing", "Development", "SelfTest", "ConfigurationData",
  "UserDefinedData">>
AppCodeOk(c) == InRange(c, 0, 15) \/ InRange(c, 26, 45)
AppName(c) == IF c <= 15 THEN AppNames[c + 1] ELSE "ManufacturerSpecific(" \o ToString(c) \o ")"
\* high half-bytes up to and including the first 15
RECURSIVE AppCodeR(_, _, _)
AppCodeR(bs, i, acc) ==
  IF i > Len(bs) THEN acc
  ELSE LET hi == bs[i] \div 16 IN IF hi = 15 THEN acc + 15 ELSE AppCodeR(bs, i + 1, acc + hi)
AppCode(bs) == AppCodeR(bs, 1, 0)
AppBlock(bs) == FoldLeft(LAMBDA acc, b : MulAdd(acc, 16, b % 16), Zero4, bs)

ErrName(c) ==
  CASE c = 0 -> "Unspecified"  [] c = 1 -> "CIFieldError"  [] c = 2 -> "BufferOverflow"
    [] c = 3 -> "RecordOverflow"  [] c = 4 -> "RecordError"  [] c = 5 -> "DIFEOverflow"
    [] c = 6 -> "VIFEOverflow"  [] c = 8 -> "ApplicationBusy"  [] c = 9 -> "CreditOverflow"
    [] c = 17 -> "NoFunction"  [] c = 18 -> "DataError"  [] c = 19 -> "RoutingOrRelayingError"
    [] c = 20 -> "AccessViolation"  [] c = 21 -> "ParameterError"  [] c = 22 -> "SizeError"
    [] c = 32 -> "SecurityError"  [] c = 33 -> "SecurityMechanismNotSupported"
    [] c = 34 -> "InadequateSecurityMethod"  [] OTHER -> ""
=============================================================================
