--------------------------- MODULE MBusLinkExact ----------------------------
(***************************************************************************)
(* C02, C04 for byte strings of every length and content: a receiver z and *)
(* what has been received, remembered by position (ghost variables). Ind   *)
(* is inductive (checked symbolically with Apalache) and implies that the  *)
(* receiver accepts if and only if the bytes are an envelope as EN 13757   *)
(* draws it, and has rejected if and only if no continuation could be one. *)
(***************************************************************************)
EXTENDS MBusLinkCtl

VARIABLES
  \* @type: $link;
  z,
  \* @type: Int;
  k,         \* bytes received
  \* @type: Int;
  b0,        \* the first four of them
  \* @type: Int;
  b1,
  \* @type: Int;
  b2,
  \* @type: Int;
  b3,
  \* @type: Bool;
  okc,       \* the byte in the place of the control field is one
  \* @type: Int;
  g,         \* sum of the bytes from control field to the end of the data
  \* @type: Int;
  cs,        \* the byte in the place of the checksum
  \* @type: Int;
  t          \* the byte in the place of the stop byte

Byte == 0..255
Start == [ph |-> "S", l |-> 0, c |-> 0, a |-> 0, sum |-> 0, n |-> 0]
Init == /\ z = Start /\ k = 0 /\ b0 = 0 /\ b1 = 0 /\ b2 = 0 /\ b3 = 0
        /\ okc = FALSE /\ g = 0 /\ cs = 0 /\ t = 0

\* first and last place of the summed bytes
First == IF b0 = 104 THEN 4 ELSE 1
Last  == IF b0 = 104 THEN b1 + 3 ELSE 2
\* @type: (Int, Int, Int) => Int;
At(place, b, old) == IF k = place THEN b ELSE old
Summed(b) == IF k >= First /\ k <= Last /\ k > 0 THEN g + b ELSE g

Next == \E b \in Byte, ok \in BOOLEAN :
          /\ z' = CtlStep(z, b, ok)
          /\ k' = k + 1
          /\ b0' = At(0, b, b0) /\ b1' = At(1, b, b1) /\ b2' = At(2, b, b2) /\ b3' = At(3, b, b3)
          /\ okc' = IF k = First THEN ok ELSE okc
          /\ g' = Summed(b)
          /\ cs' = IF k > 0 /\ k = Last + 1 THEN b ELSE cs
          /\ t' = IF k > 0 /\ k = Last + 2 THEN b ELSE t

----------------------------------------------------------------------------
\* the frames of EN 13757-2
Envelope ==
  \/ b0 = 229 /\ k = 1
  \/ b0 = 16 /\ k = 5 /\ okc /\ cs = g % 256 /\ t = 22
  \/ b0 = 104 /\ b1 >= 2 /\ b2 = b1 /\ b3 = 104 /\ k = b1 + 6 /\ okc /\ cs = g % 256 /\ t = 22
\* no continuation of the bytes is one
Dead ==
  \/ k >= 1 /\ b0 /= 229 /\ b0 /= 16 /\ b0 /= 104
  \/ k > 1 /\ b0 = 229
  \/ b0 = 16 /\ \/ k >= 2 /\ ~okc
                \/ k >= 4 /\ cs /= g % 256
                \/ k >= 5 /\ t /= 22
                \/ k > 5
  \/ b0 = 104 /\ \/ k >= 2 /\ b1 < 2
                 \/ k >= 3 /\ b2 /= b1
                 \/ k >= 4 /\ b3 /= 104
                 \/ k >= 5 /\ b1 >= 2 /\ ~okc
                 \/ k >= 6 /\ k >= b1 + 5 /\ b1 >= 2 /\ cs /= g % 256
                 \/ k >= 6 /\ k >= b1 + 6 /\ b1 >= 2 /\ t /= 22
                 \/ k >= 6 /\ k > b1 + 6
Exactly == CtlOk(z) <=> Envelope
Early   == z.ph = "REJ" <=> Dead
Goal    == Exactly /\ Early

----------------------------------------------------------------------------
Long(i) == k = i /\ b0 = 104
Known == b0 = 104 /\ b1 >= 2 /\ b2 = b1 /\ b3 = 104 /\ z.l = b1 /\ okc /\ z.sum = g % 256
Ind ==
  /\ k >= 0 /\ b0 \in Byte /\ b1 \in Byte /\ b2 \in Byte /\ b3 \in Byte /\ cs \in Byte /\ t \in Byte /\ g >= 0
  /\ z.ph \in {"S", "L1", "L2", "L3", "C", "A", "D", "CS", "T", "END", "SC", "SA", "SCS", "ST", "SEND", "ACK", "REJ"}
  /\ k = 0 => g = 0 /\ b0 = 0 /\ z.ph = "S"
  /\ z.ph = "S" => k = 0
  /\ z.ph = "REJ" <=> Dead
  /\ k <= First => g = 0
  /\ z.ph = "ACK" => k = 1 /\ b0 = 229
  /\ z.ph = "L1" => Long(1)
  /\ z.ph = "L2" => Long(2) /\ b1 >= 2 /\ z.l = b1
  /\ z.ph = "L3" => Long(3) /\ b1 >= 2 /\ z.l = b1 /\ b2 = b1
  /\ z.ph = "C"  => Long(4) /\ b1 >= 2 /\ z.l = b1 /\ b2 = b1 /\ b3 = 104
  /\ z.ph = "A"  => Known /\ k = 5
  /\ z.ph = "D"  => Known /\ z.n >= 1 /\ z.n <= b1 - 2 /\ k = b1 + 4 - z.n
  /\ z.ph = "CS" => Known /\ k = b1 + 4
  /\ z.ph = "T"  => Known /\ k = b1 + 5 /\ cs = z.sum
  /\ z.ph = "END" => Known /\ k = b1 + 6 /\ cs = z.sum /\ t = 22
  /\ z.ph = "SC" => k = 1 /\ b0 = 16
  /\ z.ph = "SA" => k = 2 /\ b0 = 16 /\ okc /\ z.sum = g % 256
  /\ z.ph = "SCS" => k = 3 /\ b0 = 16 /\ okc /\ z.sum = g % 256
  /\ z.ph = "ST" => k = 4 /\ b0 = 16 /\ okc /\ z.sum = g % 256 /\ cs = z.sum
  /\ z.ph = "SEND" => k = 5 /\ b0 = 16 /\ okc /\ z.sum = g % 256 /\ cs = z.sum /\ t = 22

IndInit ==
  /\ \E p \in {"S", "L1", "L2", "L3", "C", "A", "D", "CS", "T", "END", "SC", "SA", "SCS", "ST", "SEND", "ACK", "REJ"},
        l \in Int, c \in Int, a \in Int, s \in Int, n \in Int :
       z = [ph |-> p, l |-> l, c |-> c, a |-> a, sum |-> s, n |-> n]
  /\ k \in Int /\ b0 \in Int /\ b1 \in Int /\ b2 \in Int /\ b3 \in Int /\ g \in Int /\ cs \in Int /\ t \in Int
  /\ okc \in BOOLEAN
  /\ Ind
=============================================================================
