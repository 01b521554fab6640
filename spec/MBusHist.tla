------------------------------ MODULE MBusHist ------------------------------
(***************************************************************************)
(* Several clients parse telegrams at the same time, each call advancing   *)
(* one byte per step, calls overlapping and repeating in every order       *)
(* (C25).  The library keeps no state between calls: the only things a     *)
(* call touches are its own machine and its own bytes.  Checked: whatever  *)
(* the history, every completed call returned what a single, undisturbed   *)
(* call returns.  The observed histories of the real library (op "hist")   *)
(* are judged by the same statement (MBusConform!JudgeHistory).            *)
(***************************************************************************)
EXTENDS MBusConform, IOUtils

Deep == "TIER" \in DOMAIN IOEnv /\ IOEnv.TIER = "thorough"
Clients == IF Deep THEN {1, 2, 3} ELSE {1, 2}
Calls == IF Deep THEN 2 ELSE 2                   \* calls per client
Telegrams == << <<229>>, <<16, 64, 1, 65, 22>>, <<16, 64, 1, 66, 22>>,
                Wrap(8, 1, <<112>>), Wrap(8, 1, <<120, 1, 19>>) >>
VARIABLES cur,      \* cur[c]: telegram being parsed, 0 when idle
          at,       \* at[c]: bytes read
          mach,     \* mach[c]: the call's own machine
          done      \* done[c]: <<telegram, result>> of completed calls
vars == <<cur, at, mach, done>>
Init == /\ cur = [c \in Clients |-> 0] /\ at = [c \in Clients |-> 0]
        /\ mach = [c \in Clients |-> LinkInit] /\ done = [c \in Clients |-> <<>>]
Begin(c, t) == /\ cur[c] = 0 /\ Len(done[c]) < Calls
               /\ cur' = [cur EXCEPT ![c] = t] /\ at' = [at EXCEPT ![c] = 0]
               /\ mach' = [mach EXCEPT ![c] = LinkInit] /\ UNCHANGED done
Read(c) == /\ cur[c] > 0 /\ at[c] < Len(Telegrams[cur[c]])
           /\ at' = [at EXCEPT ![c] = @ + 1]
           /\ mach' = [mach EXCEPT ![c] = LinkStep(@, Telegrams[cur[c]][at[c] + 1])]
           /\ UNCHANGED <<cur, done>>
Return(c) == /\ cur[c] > 0 /\ at[c] = Len(Telegrams[cur[c]])
             /\ done' = [done EXCEPT ![c] = Append(@, <<cur[c], IF LinkOk(mach[c]) THEN LinkEvs(mach[c]) ELSE <<>>>>)]
             /\ cur' = [cur EXCEPT ![c] = 0] /\ at' = [at EXCEPT ![c] = 0]
             /\ mach' = [mach EXCEPT ![c] = LinkInit]
Next == \E c \in Clients : \/ \E t \in 1..Len(Telegrams) : Begin(c, t)
                           \/ Read(c) \/ Return(c)
Spec == Init /\ [][Next]_vars
Pure == \A c \in Clients : \A i \in 1..Len(done[c]) : done[c][i][2] = PktRun(Telegrams[done[c][i][1]]).ev
Private == [][\A c \in Clients : mach'[c] /= mach[c] => \A o \in Clients \ {c} : mach'[o] = mach[o]]_vars
=============================================================================
