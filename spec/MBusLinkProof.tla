--------------------------- MODULE MBusLinkProof ----------------------------
(***************************************************************************)
(* C02, C03, C04 for frames of every length and content.  Two receivers:   *)
(* x reads an arbitrary valid frame as it was sent, y reads it with one    *)
(* fault - a byte substituted, dropped, inserted, or the end cut off - at  *)
(* an arbitrary place.  Ind is inductive (checked symbolically, all bytes, *)
(* lengths and states, with Apalache) and implies that y never ends in a   *)
(* state that accepts, that x is decided exactly when the announced number *)
(* of bytes has arrived, and that nothing shorter is ever decided.         *)
(*   Base:  Init /\ no step     => Ind                                     *)
(*   Step:  IndInit /\ one step => Ind                                     *)
(*   Goal:  IndInit             => Goal                                    *)
(***************************************************************************)
EXTENDS MBusLinkCtl

VARIABLES
  \* @type: $link;
  x,       \* reads what was sent
  \* @type: $link;
  y,       \* reads what arrived
  \* @type: Int;
  nx,      \* bytes read by x
  \* @type: Int;
  ny,      \* bytes read by y
  \* @type: Str;
  kind     \* the fault that has happened

Byte == 0..255
Start == [ph |-> "S", l |-> 0, c |-> 0, a |-> 0, sum |-> 0, n |-> 0]
Init == x = Start /\ y = Start /\ nx = 0 /\ ny = 0 /\ kind = "no"

\* what was sent is a valid frame: x never rejects
Sent(b, ok) == x' = CtlStep(x, b, ok) /\ x'.ph /= "REJ" /\ nx' = nx + 1
Arrived(b, ok) == y' = CtlStep(y, b, ok) /\ ny' = ny + 1
Deliver == \E b \in Byte, ok \in BOOLEAN : Sent(b, ok) /\ Arrived(b, ok) /\ kind /= "cut" /\ UNCHANGED kind
Substitute == /\ kind = "no" /\ kind' = "substitute"
              /\ \E b \in Byte, e \in Byte, okb \in BOOLEAN, oke \in BOOLEAN : b /= e /\ Sent(b, okb) /\ Arrived(e, oke)
Drop == /\ kind = "no" /\ kind' = "drop"
        /\ \E b \in Byte, ok \in BOOLEAN : Sent(b, ok)
        /\ UNCHANGED <<y, ny>>
Insert == /\ kind = "no" /\ kind' = "insert"
          /\ \E e \in Byte, ok \in BOOLEAN : Arrived(e, ok)
          /\ UNCHANGED <<x, nx>>
Cut == kind = "no" /\ kind' = "cut" /\ ~CtlOk(x) /\ UNCHANGED <<x, y, nx, ny>>
Lost == kind = "cut" /\ UNCHANGED <<y, ny, kind>> /\ \E b \in Byte, ok \in BOOLEAN : Sent(b, ok)
Next == Deliver \/ Substitute \/ Drop \/ Insert \/ Cut \/ Lost

----------------------------------------------------------------------------
Sound  == (kind /= "no" /\ CtlOk(x)) => ~CtlOk(y)
InTime == (x.ph = "END" => nx = x.l + 6) /\ (x.ph = "SEND" => nx = 5) /\ (x.ph = "ACK" => nx = 1)
Waits  == CtlOk(x) => \A b \in Byte, ok \in BOOLEAN : CtlStep(x, b, ok).ph = "REJ"
Goal   == Sound /\ InTime /\ Waits

----------------------------------------------------------------------------
Long  == {"L1", "L2", "L3", "C", "A", "D", "CS", "T", "END"}
Short == {"SC", "SA", "SCS", "ST", "SEND"}
Phases == Long \cup Short \cup {"S", "ACK", "REJ"}
Sized == {"L2", "L3", "C", "A", "D", "CS", "T", "END"}       \* the length is known
Summing == {"A", "D", "CS"}

\* where in its frame a receiver is
\* @type: ($link, Int) => Bool;
Place(z, k) ==
  /\ z.ph \in Phases /\ z.l \in Byte /\ z.sum \in Byte /\ z.c \in Byte /\ z.a \in Byte /\ z.n \in Int /\ k >= 0
  /\ z.ph \in Sized => z.l >= 2
  /\ z.ph = "S" => k = 0
  /\ z.ph \in {"L1", "SC", "ACK"} => k = 1
  /\ z.ph \in {"L2", "SA"} => k = 2
  /\ z.ph \in {"L3", "SCS"} => k = 3
  /\ z.ph \in {"C", "ST"} => k = 4
  /\ z.ph \in {"A", "SEND"} => k = 5
  /\ z.ph = "D" => z.n >= 1 /\ z.n <= z.l - 2 /\ k = z.l + 4 - z.n
  /\ z.ph = "CS" => k = z.l + 4
  /\ z.ph = "T" => k = z.l + 5
  /\ z.ph = "END" => k = z.l + 6

\* both read a frame of the same announced length
SameLength == (x.ph \in Sized /\ y.ph \in Sized) => x.l = y.l

Ind ==
  /\ Place(x, nx) /\ Place(y, ny) /\ x.ph /= "REJ"
  /\ kind \in {"no", "substitute", "drop", "insert", "cut"}
  /\ kind = "no" => x = y /\ nx = ny
  /\ kind = "substitute" =>
       /\ nx = ny
       /\ \/ y.ph = "REJ"
          \/ x.ph \in Long /\ y.ph \in Short \cup {"ACK"}
          \/ x.ph \in Short /\ y.ph \in Long \cup {"ACK"}
          \/ x.ph = "ACK" /\ y.ph \in {"L1", "SC"}
          \/ x.ph = "L2" /\ y.ph = "L2" /\ x.l /= y.l
          \/ x.ph = y.ph /\ x.ph \in Summing /\ x.l = y.l /\ x.n = y.n /\ x.sum /= y.sum
          \/ x.ph = y.ph /\ x.ph \in {"SA", "SCS"} /\ x.sum /= y.sum
  /\ kind = "drop" => ny = nx - 1 /\ SameLength
  /\ kind = "insert" => ny = nx + 1 /\ SameLength
  /\ kind = "cut" => ny <= nx /\ ~CtlOk(y)

\* any state that satisfies Ind
IndInit ==
  /\ \E p \in Phases, l \in Int, c \in Int, a \in Int, s \in Int, n \in Int :
       x = [ph |-> p, l |-> l, c |-> c, a |-> a, sum |-> s, n |-> n]
  /\ \E p \in Phases, l \in Int, c \in Int, a \in Int, s \in Int, n \in Int :
       y = [ph |-> p, l |-> l, c |-> c, a |-> a, sum |-> s, n |-> n]
  /\ nx \in Int /\ ny \in Int
  /\ kind \in {"no", "substitute", "drop", "insert", "cut"}
  /\ Ind
=============================================================================
