------------------------------- MODULE MCConc -------------------------------
(***************************************************************************)
(* Why calls have to own what they write.  Threads make calls one after    *)
(* another; a call of the signal v copies it to a work area, doubles it    *)
(* there step by step and returns it.  Mem says whose the work area is:    *)
(* "own" (a new one per call), "static" (one for all calls), "cached" (a   *)
(* result is kept under the length of the signal, and given out again).    *)
(* Pure: a call returns what its signal alone determines.  It holds for    *)
(* "own", and TLC finds the histories that break the other two: one needs  *)
(* two threads inside at the same time, the other two different signals of *)
(* the same length one after the other.  The schedules the checks replay   *)
(* into the code contain both kinds.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Calls, Mem
Signals == {<<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
VARIABLES pc, arg, area, pos, kept, left, wrong
vars == <<pc, arg, area, pos, kept, left, wrong>>
Own(t) == IF Mem = "static" THEN 0 ELSE t
Init == /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> <<>>] /\ pos = [t \in Threads |-> 0]
        /\ area = [t \in Threads \cup {0} |-> <<>>] /\ kept = [n \in 1..2 |-> <<>>]
        /\ left = Calls /\ wrong = FALSE
Enter(t) == /\ pc[t] = "idle" /\ left > 0 /\ left' = left - 1
            /\ \E s \in Signals : arg' = [arg EXCEPT ![t] = s]
            /\ pc' = [pc EXCEPT ![t] = "in"] /\ UNCHANGED <<area, pos, kept, wrong>>
Load(t) == /\ pc[t] = "in"
           /\ area' = [area EXCEPT ![Own(t)] = IF Mem = "cached" /\ kept[Len(arg[t])] # <<>> THEN kept[Len(arg[t])] ELSE arg[t]]
           /\ pos' = [pos EXCEPT ![t] = IF Mem = "cached" /\ kept[Len(arg[t])] # <<>> THEN Len(arg[t]) ELSE 0]
           /\ pc' = [pc EXCEPT ![t] = "work"] /\ UNCHANGED <<arg, kept, left, wrong>>
Work(t) == /\ pc[t] = "work" /\ pos[t] < Len(arg[t])
           /\ pos' = [pos EXCEPT ![t] = @ + 1]
           /\ area' = [area EXCEPT ![Own(t)] = [i \in DOMAIN @ |-> IF i = pos[t] + 1 THEN 2 * @[i] ELSE @[i]]]
           /\ UNCHANGED <<pc, arg, kept, left, wrong>>
Return(t) == /\ pc[t] = "work" /\ pos[t] = Len(arg[t])
             /\ wrong' = (wrong \/ area[Own(t)] # [i \in 1..Len(arg[t]) |-> 2 * arg[t][i]])
             /\ kept' = IF Mem = "cached" THEN [kept EXCEPT ![Len(arg[t])] = area[Own(t)]] ELSE kept
             /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<arg, area, pos, left>>
Next == \E t \in Threads : Enter(t) \/ Load(t) \/ Work(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
Pure == ~wrong
=============================================================================
