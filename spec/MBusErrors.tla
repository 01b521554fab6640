----------------------------- MODULE MBusErrors -----------------------------
(***************************************************************************)
(* An error travelling outwards through the parsers (C28): each level adds *)
(* one context.  Checked: adding a context appends exactly one line and    *)
(* changes none; labels step one space deeper, expected-lines stay at the  *)
(* depth of the label before; nothing is lost or reordered.                *)
(***************************************************************************)
EXTENDS MBusConform, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Contexts == IF Deep THEN (0..20) \cup {32, 41, 50, 59} ELSE {0, 1, 4, 8, 9, 12, 16, 20, 32, 49}
Depth == IF Deep THEN 4 ELSE 4
VARIABLES cause, added
vars == <<cause, added>>
Init == cause \in (IF Deep THEN 0..7 ELSE {0, 1, 2, 3}) /\ added = <<>>
AddContext(k) == Len(added) < Depth /\ added' = Append(added, k) /\ UNCHANGED cause
Next == \E k \in Contexts : AddContext(k)
Spec == Init /\ [][Next]_vars

Rep(a, s) == ErrTextRun(<<a>>, s).ev
Lines(a, s) == SelectSeq(Rep(a, s), LAMBDA x : x.e = "Line")
Ctxs(a, s) == SelectSeq(Rep(a, s), LAMBDA x : x.e \in {"Ctx", "CtxText"})
HeadLines == IF cause = 0 THEN 0 ELSE Len(CauseLines(cause))
OneLineEach == Len(Lines(cause, added)) = Len(added) + HeadLines /\ Len(Ctxs(cause, added)) = 2 * Len(added)
CauseFirst == cause > 0 => \A i \in 1..HeadLines : Lines(cause, added)[i] = E("Line", CauseLines(cause)[i][1], <<CauseLines(cause)[i][2]>>)
Append1 == [][/\ IsPrefix(Lines(cause, added), Lines(cause, added'))
              /\ IsPrefix(Ctxs(cause, added), Ctxs(cause, added'))]_vars
IsExp(k) == k \in 8..11 \/ k = 20 \/ k \in 48..55
\* indentation by the rule in words
Indent == \A i \in 1..Len(added) :
  LET ln == Lines(cause, added)[i + HeadLines].n[1]
      labs == {j \in 1..i : ~IsExp(added[j])} IN
  ln = IF labs = {} THEN 0 ELSE Cardinality(labs) - 1
=============================================================================
