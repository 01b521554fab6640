------------------------------ MODULE MBusCodec ------------------------------
(***************************************************************************)
(* Field by field: a case is an abstract value; Transmit writes it down as *)
(* the standards encode it; Receive decodes it with the receiver's own     *)
(* operators.  Invariants: what was meant is what is reported, and what    *)
(* nobody can have meant is refused.  IOEnv.KIND selects the field.        *)
(***************************************************************************)
EXTENDS MBusDevice, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Kind == IOEnv.KIND
Pick(shallow, deep) == IF Deep THEN deep ELSE shallow

\* a few eight-digit numbers: every digit at every place, borders
Idents == {d * Pow(10, k) : d \in 0..9, k \in 0..7} \cup {12345678, 99999999, 10000001, 87654321}
          \cup {99999999 - Pow(10, k) : k \in 0..7}
Ints(w) == LET top == IF w >= 4 THEN 2147483647 ELSE Pow(256, w) \div 2 - 1 IN
           ({-top - 1, -top, -257, -256, -255, -129, -128, -127, -2, -1, 0, 1, 2, 47, 127, 128, 255, 256, 32767, 32768, top - 1, top}
            \cup {Pow(2, k) : k \in 0..(IF w >= 4 THEN 30 ELSE 8 * w - 2)}
            \cup {-Pow(2, k) : k \in 0..(IF w >= 4 THEN 30 ELSE 8 * w - 1)}) \cap (-top - 1)..top
Decs(w) == {v \in Idents \cup {-1, -9, -10, -99, 5, 99, 100, 999} \cup {-x : x \in {12, 345, 6789}} :
              IF v < 0 THEN -v < Pow(10, (IF w > 4 THEN 8 ELSE 2 * w - 1)) ELSE v < Pow(10, (IF w > 4 THEN 8 ELSE 2 * w))}
Bit7 == {0, 1}

Primary == << <<0, 0, "ResetRemoteLink">>, <<1, 0, "ResetUserProcess">>, <<3, 1, "SendUserDataConfirmed">>,
   <<4, 0, "SendUserDataUnconfirmed">>, <<8, 0, "RequestAccessDemand">>, <<9, 0, "RequestLinkStatus">>,
   <<10, 1, "RequestUserData1">>, <<11, 1, "RequestUserData2">> >>
Secondary == << <<0, "ACK">>, <<1, "NACK">>, <<8, "UserData">>, <<9, "UserDataUnavailable">>, <<11, "Status">>,
   <<14, "LinkNotFunctioning">>, <<15, "LinkNotImplemented">> >>

Cases ==
  CASE Kind = "control" -> {<<"p", i, f, 0>> : i \in 1..8, f \in Bit7} \cup {<<"s", i, f, g>> : i \in 1..7, f \in Bit7, g \in Bit7}
                           \cup {<<"b", b, 0, 0>> : b \in Byte}
    [] Kind = "ident"   -> {<<"id", n>> : n \in Idents} \cup {<<"byte", i, b>> : i \in 1..4, b \in Byte}
    [] Kind = "man"     -> {<<"l", a, b, c>> : a \in 1..26, b \in (IF Deep THEN 1..26 ELSE {1, 2, 13, 25, 26}), c \in 1..26}
                           \cup {<<"code", x>> : x \in (IF Deep THEN 0..65535 ELSE {1057 * k : k \in 0..61} \cup 32768..32800)}
    [] Kind = "cfg"     -> {<<lo, hi>> : lo \in (IF Deep THEN Byte ELSE {0, 1, 16, 128, 255}), hi \in Byte}
    [] Kind = "status"  -> {<<b>> : b \in Byte}
    [] Kind = "dib"     -> {Dib(f, fn, sto, tar, sub, nd, reg) :
                              f \in {1}, fn \in 0..3, nd \in 0..(IF Deep THEN 6 ELSE 4), reg \in BOOLEAN,
                              sto \in {0, 1, 2, 3, 16, 31, 32, 47, 512, 513, 8191, 131071} \cup Pick({}, {Pow(2, k) : k \in 0..20}),
                              tar \in {0, 1, 2, 3, 4, 21, 63, 255} \cup Pick({}, {512, 1024}), sub \in {0, 1, 2, 3, 5, 8, 15} \cup Pick({}, {16, 32, 63})}
    [] Kind = "int"     -> {<<w, v>> : w \in {1, 2, 3, 4, 6, 8}, v \in UNION {Ints(w) : w \in 1..8}}
    [] Kind = "bcd"     -> {<<w, v>> : w \in 1..9, v \in UNION {Decs(w) : w \in 1..9}} \cup {<<0, w, p, d>> : w \in {1, 2, 3, 4, 6}, p \in 0..11, d \in 10..15}
    [] Kind = "lvar"    -> {<<b>> : b \in Byte}
    [] Kind = "text"    -> {<<"win", b>> : b \in Byte} \cup {<<"utf", c>> : c \in (0..(IF Deep THEN 6000 ELSE 700)) \cup {2047, 2048, 8364, 55295, 57344, 65533, 65535, 65536, 128512, 1114111}}
                           \cup {<<"bad", a, b>> : a \in 128..255, b \in (IF Deep THEN Byte ELSE {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 255})}
    [] Kind = "date"    -> {<<"dm", d, m, y>> : d \in 0..31, m \in 0..15, y \in (IF Deep THEN 0..127 ELSE {0, 1, 7, 8, 80, 81, 98, 99, 100, 126, 127})}
                           \cup {<<"t", a, b>> : a \in 0..63, b \in 0..31}
                           \cup {<<"k", a, b>> : a \in 0..31, b \in 0..31}
    [] Kind = "vif"     -> {<<t, v>> : t \in {10, 12, 13, 14}, v \in 0..127}
    [] Kind = "ci"      -> {<<b>> : b \in Byte}
    [] Kind = "app"     -> {<<n, h, l, r>> : n \in 1..10, h \in 0..15, l \in 0..15, r \in {0, 1, 14, 15}}
    [] OTHER            -> {<<b>> : b \in Byte}      \* "err": application error codes

VARIABLES case, stage
vars == <<case, stage>>
Init == case \in Cases /\ stage = "meant"
Transmit == stage = "meant" /\ stage' = "decoded" /\ UNCHANGED case
Next == Transmit
Spec == Init /\ [][Next]_vars

c1 == case[1]  c2 == case[2]  c3 == case[3]  c4 == case[4]

\* control byte = DIR 0 | PRM | FCB/ACD | FCV/DFC | function
EncControl == IF c1 = "p" THEN 64 + 32 * c3 + 16 * Primary[c2][2] + Primary[c2][1]
              ELSE 32 * c3 + 16 * c4 + Secondary[c2][1]
MeantControls == {64 + 32 * f + 16 * Primary[i][2] + Primary[i][1] : i \in 1..8, f \in Bit7}
                 \cup {32 * f + 16 * g + Secondary[i][1] : i \in 1..7, f \in Bit7, g \in Bit7}
ControlRight ==
  CASE c1 = "p" -> ControlOk(EncControl) /\ ControlEv(EncControl) = E("Control", "Primary " \o Primary[c2][3], <<c3>>)
    [] c1 = "s" -> ControlOk(EncControl) /\ ControlEv(EncControl) =
                     E("Control", "Secondary " \o Secondary[c2][2] \o (IF c4 = 1 THEN " Pause" ELSE " Continue"), <<c3>>)
    [] OTHER -> ControlOk(c2) <=> c2 \in MeantControls

IdentRight ==
  IF c1 = "id" THEN LET b == EncDec(c2, 4) IN IdOk(b) /\ IdLimbs(b) = Limbs(c2, 2)
  ELSE IdOk([<<0, 0, 0, 0>> EXCEPT ![c2] = c3]) <=> \E h \in 0..9, l \in 0..9 : c3 = 16 * h + l

ManRight ==
  IF c1 = "l" THEN LET code == ManPack(c2, c3, c4) IN
       /\ ManValid(code) /\ code < 32768
       /\ ManString(code) = Letters[c2 + 1] \o Letters[c3 + 1] \o Letters[c4 + 1]
       /\ code \div 1024 = c2 /\ (code \div 32) % 32 = c3 /\ code % 32 = c4      \* distinct codes
  ELSE ManValid(c2) <=> \A k \in {1, 32, 1024} : (c2 \div k) % 32 \in 1..26

CfgRight ==
  LET mode == c2 % 32 IN
  /\ mode = 0 => (CfgOk(c1, c2) <=> c1 + 256 * c2 = 0)
  /\ mode \in {6, 11, 12, 14} \cup 16..31 => CfgOk(c1, c2) /\ CfgEv(c1, c2).n = <<c1 + 256 * c2>>
  /\ mode \in {1, 2, 3, 4, 5, 7, 8, 9, 10, 13, 15} => ~CfgOk(c1, c2)

StatusRight == LET e == StatusEv(c1) IN
  c1 = FoldLeft(LAMBDA acc, i : 2 * acc + e.n[i], 0, <<1, 2, 3, 4, 5, 6>>) * 4
       + (CASE e.s = "None" -> 0 [] e.s = "Busy" -> 1 [] e.s = "Error" -> 2 [] OTHER -> 3)

DibRight == DibFits(case) =>
  LET m == AppRun(AppStart("REC", TRUE), EncDib(case) \o <<19, 9>>) IN
  m.ph = "DONE" /\ m.ign = 0 /\ SubSeq(m.body, 2, 7) = MeanDib(case)

IntRight == LET w == c1  v == c2 IN
  (v \in Ints(w)) => /\ SignedBytes(EncInt(v, w)) = Int8(v)
                     /\ (v >= 0 => UnsignedBytes(EncInt(v, w)) = Int8(v))
                     /\ (v < 0 => UnsignedBytes(EncInt(v, w)) = EncInt(v, w) \o [i \in 1..(8 - w) |-> 0])

BcdRight ==
  IF c1 = 0 THEN (c3 < 2 * c2 /\ ~(c3 = 2 * c2 - 1 /\ c4 = 15)) =>
       LET b == [i \in 1..c2 |-> IF (i - 1) = c3 \div 2 THEN (IF c3 % 2 = 0 THEN c4 ELSE 16 * c4) ELSE 0] IN
       ~BcdOk(b) /\ Len(BcdText(b)) = 2 * c2 /\ BcdText(b)[2 * c2 - c3] = 55 + c4
  ELSE c2 \in Decs(c1) =>
       LET b == EncDec(c2, c1) IN BcdOk(b) /\ BcdBytes(b, FALSE) = Int8(c2)
                                  /\ (c2 >= 0 => BcdBytes(b, TRUE) = Int8(-c2))

LvarRight == LET n == LvarLen(c1) IN
  CASE c1 < 192 -> n = c1
    [] c1 \in 192..201 -> n = c1 - 192
    [] c1 \in 208..217 -> n = c1 - 208
    [] c1 \in 224..239 -> n = c1 - 224
    [] c1 \in 240..246 -> n = <<16, 20, 24, 28, 32, 48, 64>>[c1 - 239]
    [] OTHER -> n = -1

EncUtf(c) == CASE c < 128 -> <<c>>
  [] c < 2048 -> <<192 + c \div 64, 128 + (c % 64)>>
  [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
TextRight ==
  CASE c1 = "win" -> /\ Len(Latin1Text(<<c2, 65>>)) = 2 /\ Latin1Text(<<c2, 65>>)[1] = 65
                     /\ \A o \in Byte : Win1252(o) = Win1252(c2) => o = c2
    [] c1 = "utf" -> Utf8(<<65>> \o EncUtf(c2) \o <<66>>) = <<TRUE, <<65, c2, 66>>>>
    [] OTHER -> Utf8(<<c2, c3>>)[1] <=> (c2 \in 194..223 /\ c3 \in 128..191)

EncDM(d, m, y) == <<d + 32 * (y % 8), m + 16 * (y \div 8)>>
DmMeant(d, m, y) == d \in 0..31 /\ m \in 0..12 \cup {15} /\ y \in 0..99 \cup {127} /\ ~(d = 31 /\ m = 15 /\ y = 127)
TimeMeant(mi, h) == mi \in 0..59 \cup {63} /\ h \in 0..23 \cup {31}
DateRight ==
  CASE c1 = "dm" -> LET b == EncDM(c2, c3, c4)  g == DateG(b) IN
         /\ g.ok <=> DmMeant(c2, c3, c4)
         /\ g.ok => g.n = <<c2, c3, c4>>
         /\ \A hy \in 0..3, su \in 0..1 :
              LET f == DateF(<<30, 12 + 32 * hy + 128 * su>> \o b) IN
              /\ f.ok <=> DmMeant(c2, c3, c4)
              /\ f.ok => f.n = <<30, 12, c2, c3, c4, IF hy = 0 /\ c4 <= 80 THEN 1 ELSE hy, su>>
    [] c1 = "t" -> LET f == DateF(<<c2, c3, 1, 1>>)  j == TimeJ(<<c2, 5, c3>>)  j2 == TimeJ(<<5, c2, c3>>) IN
         /\ f.ok <=> TimeMeant(c2, c3)
         /\ j.ok <=> TimeMeant(c2, c3)
         /\ j2.ok <=> TimeMeant(c2, c3)
         /\ f.ok => f.n[1] = c2 /\ f.n[2] = c3 /\ j.n = <<c2, 5, c3>> /\ j2.n = <<5, c2, c3>>
         /\ ~DateF(<<c2 + 64, c3, 1, 1>>).ok /\ ~DateF(<<c2 + 128, c3, 1, 1>>).ok /\ ~TimeJ(<<c2 + 64, 0, c3>>).ok
    [] OTHER -> \A off \in 0..31, dev \in 0..3, sg \in 0..1 :     \* local hour c2, start day c3
         LET k == DstK(<<2 + 32 * (off % 8), c3 + 32 * (off \div 8), 30 + 32 * dev + 128 * sg, 163>>) IN
         /\ k.ok <=> (off \in 0..23 \cup {31} /\ c3 >= 1)
         /\ k.ok => k.n = <<2, c3, 3, 30, 10, 0, IF sg = 1 THEN dev ELSE -dev, off>>

RowsOf(t) == CASE t = 10 -> Rows10 [] t = 12 -> Rows12 [] t = 13 -> Rows13 [] OTHER -> Rows14
TabOf(t) == CASE t = 10 -> Tab10 [] t = 12 -> Tab12 [] t = 13 -> Tab13 [] OTHER -> Tab14
\* every code has a first row; rows other than the last do not overlap except
\* for the one code carved out of a range; the number a row carries counts up
VifRight ==
  LET rows == RowsOf(c1)
      hits == {i \in 1..(Len(rows) - 1) : PatMatch(rows[i].p, c2)} IN
  /\ c2 \in DOMAIN TabOf(c1)
  /\ Cardinality(hits) <= (IF c1 = 12 /\ c2 = 48 THEN 2 ELSE 1)
  /\ hits = {} <=> TabOf(c1)[c2].q = rows[Len(rows)].name /\ ~(\E i \in hits : TRUE)

Hdr12 == <<0, 0, 0, 0, 33, 4, 0, 0, 0, 0, 0, 0>>
HeaderLen(h) == CASE h = "None" -> 0 [] h = "Short" -> 4 [] OTHER -> 12
CiRight == LET t == CITab[c1] IN
  /\ t.hdr = "Reserved" => t.form = "REJ"
  /\ t.form = "REJ" => ~AppOk(AppRun(AppInit, <<c1>> \o Hdr12))
  /\ (t.form /= "REJ" /\ t.hdr /= "Reserved") =>
       LET m == AppRun(AppInit, <<c1>> \o SubSeq(Hdr12, 1, HeaderLen(t.hdr))) IN
       /\ m.ph = t.form                                   \* header consumed exactly
       /\ (HeaderLen(t.hdr) > 0 => AppRun(AppInit, <<c1>> \o SubSeq(Hdr12, 1, HeaderLen(t.hdr) - 1)).ph = "HDR")
       /\ MsgEvs(m)[1].n \in {<<>>, <<c1>>}

\* n bytes of code part h (the r-th part 15 ends it) and block part l
AppRight ==
  LET bs == [i \in 1..c1 |-> 16 * (IF i = c4 THEN 15 ELSE c2) + c3]
      ends == IF c4 \in 1..c1 /\ c2 /= 15 THEN c4 ELSE IF c2 = 15 THEN 1 ELSE c1
      code == IF c2 = 15 THEN 15 ELSE IF ends = c4 THEN (c4 - 1) * c2 + 15 ELSE c1 * c2
      m == AppRun(AppInit, <<80>> \o bs) IN
  /\ AppCode(bs) = code
  /\ AppOk(m) <=> (code \in 0..15 \/ code \in 26..45)
  /\ c1 <= 7 => AppBlock(bs) = Limbs(FoldLeft(LAMBDA acc, i : 16 * acc + c3, 0, [i \in 1..c1 |-> i]), 4)

ErrRight == LET m == AppRun(AppInit, <<112, c1>>)  r == AppRun(AppInit, <<112, c1, 1, 19, 5>>) IN
  /\ (c1 < 240 => (AppOk(m) <=> ErrName(c1) /= ""))
  /\ (c1 = 240 => ~AppOk(m) /\ AppOk(r) /\ r.nrec = 1)
  /\ (c1 > 240 => AppOk(m) /\ BodyEvs(r)[1].n = <<c1, 1, 19, 5>>)

Right == stage = "decoded" =>
  CASE Kind = "control" -> ControlRight [] Kind = "ident" -> IdentRight [] Kind = "man" -> ManRight
    [] Kind = "cfg" -> CfgRight [] Kind = "status" -> StatusRight [] Kind = "dib" -> DibRight
    [] Kind = "int" -> IntRight [] Kind = "bcd" -> BcdRight [] Kind = "lvar" -> LvarRight
    [] Kind = "text" -> TextRight [] Kind = "date" -> DateRight [] Kind = "vif" -> VifRight
    [] Kind = "ci" -> CiRight [] Kind = "app" -> AppRight [] OTHER -> ErrRight
=============================================================================
