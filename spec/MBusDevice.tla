----------------------------- MODULE MBusDevice -----------------------------
(***************************************************************************)
(* The device's side: abstract records, written as EN 13757-3 encodes      *)
(* them, from the meaning to the bytes.  The encoder shares no operator    *)
(* with the receiver's decoders except the names of things, so that        *)
(* "decoding what was encoded gives what was meant" is a real statement.   *)
(***************************************************************************)
EXTENDS MBusParser

Sum(f(_), n) == FoldLeft(LAMBDA acc, i : acc + f(i), 0, [i \in 1..n |-> i])
Pow(b, n) == FoldLeft(LAMBDA acc, i : acc * b, 1, [i \in 1..n |-> i])

(* data information: function, data field, storage, tariff, subunit in nd  *)
(* extension bytes, and reg for the extra all-zero byte of a register      *)
DifExt(nd, reg) == IF nd > 0 \/ reg THEN 128 ELSE 0
EncDib(x) ==
  <<x.field + 16 * x.fn + 64 * (x.sto % 2) + DifExt(x.nd, x.reg)>>
  \o [k \in 1..x.nd |->
        (((x.sto \div 2) \div Pow(16, k - 1)) % 16) + 16 * ((x.tar \div Pow(4, k - 1)) % 4)
        + 64 * ((x.sub \div Pow(2, k - 1)) % 2) + (IF k < x.nd \/ x.reg THEN 128 ELSE 0)]
  \o (IF x.reg THEN <<0>> ELSE <<>>)
\* what fits: the numbers need no more bits than there are, and the last
\* extension byte is not the all-zero register mark unless meant
DibFits(x) == /\ x.sto < 2 * Pow(16, x.nd) /\ x.tar < Pow(4, x.nd) /\ x.sub < Pow(2, x.nd)
              /\ (x.nd > 0 /\ ~x.reg) =>
                   \/ (x.sto \div 2) \div Pow(16, x.nd - 1) > 0
                   \/ x.tar \div Pow(4, x.nd - 1) > 0 \/ x.sub \div Pow(2, x.nd - 1) > 0
              /\ x.reg => x.nd < 10
Limbs(v, n) == [i \in 1..n |-> IF i = 1 THEN v % 65536 ELSE IF i = 2 THEN v \div 65536 ELSE 0]
FnName(f) == CASE f = 0 -> "InstantaneousValue" [] f = 1 -> "MaximumValue"
               [] f = 2 -> "MinimumValue" [] OTHER -> "ValueDuringErrorState"
FieldName(f) == CASE f = 0 -> "None" [] f = 5 -> "Real" [] f = 13 -> "LVAR"
                  [] f \in {1, 2, 3, 4} -> "Binary(" \o ToString(f) \o ")"
                  [] f = 6 -> "Binary(6)" [] f = 7 -> "Binary(8)"
                  [] f \in {9, 10, 11, 12} -> "BCD(" \o ToString(f - 8) \o ")" [] OTHER -> "BCD(6)"
MeanDib(x) == <<E("Fn", FnName(x.fn), <<>>), E("Raw", FieldName(x.field), <<>>),
                E("Sto", "", Limbs(x.sto, 4)), E("Tar", "", Limbs(x.tar, 2)), E("Sub", "", Limbs(x.sub, 1)),
                E("Obis", "", <<IF x.reg THEN 1 ELSE 0>>)>>

(* value information: code bytes without extension bits, what it means     *)
\* [code, text, n (characters of a plain text unit), more (further codes)]
WithExt(bs) == [i \in 1..Len(bs) |-> IF i < Len(bs) THEN bs[i] + 128 ELSE bs[i]]
EncVib(v) ==
  IF v.text = "PlainText"
  THEN <<IF v.more = <<>> THEN 124 ELSE 252>> \o <<Len(v.n)>> \o Rev(v.n) \o WithExt(v.more)
  ELSE WithExt(v.code \o v.more)
MeanVib(v) == <<E("Vif", v.text, v.n), E("Vifes", IF v.more = <<>> THEN "none" ELSE "some", v.more)>>

(* data: a value and its bytes                                             *)
\* signed value v (small) in w bytes, least significant first
EncInt(v, w) == [i \in 1..w |-> IF i <= 4 THEN (v \div Pow(256, i - 1)) % 256
                                ELSE IF v < 0 THEN 255 ELSE 0]
Int8(v) == EncInt(v, 8)
EncDec(v, w) ==                       \* v decimal in 2w digits, F as minus sign
  LET a == IF v < 0 THEN -v ELSE v
      dig(k) == IF k >= 9 THEN 0 ELSE (a \div Pow(10, k)) % 10
  IN [i \in 1..w |-> dig(2 * i - 2) + 16 * (IF v < 0 /\ i = w THEN 15 ELSE dig(2 * i - 1))]
Text(v) == E("Data", "String", v)

EncRecord(r) == EncDib(r.dib) \o EncVib(r.vib) \o r.data
MeanRecord(r) == <<E("Rec", "", <<>>)>> \o MeanDib(r.dib) \o MeanVib(r.vib) \o <<r.mean>>

Dib(field, fn, sto, tar, sub, nd, reg) ==
  [field |-> field, fn |-> fn, sto |-> sto, tar |-> tar, sub |-> sub, nd |-> nd, reg |-> reg]
Vib(code, text, more) == [code |-> code, text |-> text, n |-> <<>>, more |-> more]
Unit(chars, more) == [code |-> <<>>, text |-> "PlainText", n |-> chars, more |-> more]
Record(dib, vib, data, mean) == [dib |-> dib, vib |-> vib, data |-> data, mean |-> mean]
=============================================================================
