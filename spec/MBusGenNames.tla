---------------------------- MODULE MBusGenNames ----------------------------
(***************************************************************************)
(* Test generation from the table of device names: for every row the       *)
(* versions at and just outside its borders, with every kind of device     *)
(* type, and the same in the identification byte used as version by some.  *)
(***************************************************************************)
EXTENDS MBusConform, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
LetterNo(ch) == CHOOSE i \in 1..26 : Letters[i + 1] = ch
CodeOf(man) == LetterNo(SubSeq(man, 1, 1)) * 1024 + LetterNo(SubSeq(man, 2, 2)) * 32 + LetterNo(SubSeq(man, 3, 3))
Types == IF Deep THEN 0..63 \cup {255} ELSE {0, 2, 4, 6, 7, 15, 21, 22, 40}
Versions(r) == ({r.lo - 1, r.lo, r.hi, r.hi + 1} \cup (IF Deep THEN r.lo..r.hi ELSE {})) \cap Byte
Ident(v) == <<120, 86, 52, v>>
Hdr(code, ver, ty, id4) == Ident(id4) \o <<code % 256, code \div 256, ver, ty, 85, 0, 0, 0>>

VARIABLES row, ver, ty, shown
vars == <<row, ver, ty, shown>>
Init == /\ row \in 1..Len(NameRows) /\ ver \in Versions(NameRows[row]) /\ ty \in Types /\ shown = FALSE
Show(h) == PrintT(<<"V", h>>)
Next == /\ ~shown /\ shown' = TRUE /\ UNCHANGED <<row, ver, ty>>
        /\ LET c == CodeOf(NameRows[row].man) IN
           /\ Show(Hdr(c, ver, ty, 18))
           \* the version stands in the identification: the other field must not matter
           /\ (Digits2Ok(ver) => Show(Hdr(c, 16, ty, ver)) /\ Show(Hdr(c, 3, ty, ver)))
Spec == Init /\ [][Next]_vars
\* every row says what it says for its own border versions
Named == LET r == NameRows[row]  b == Hdr(CodeOf(r.man), r.lo, 2, 18) IN HdrRun(b, 12).st = "ok"
=============================================================================
