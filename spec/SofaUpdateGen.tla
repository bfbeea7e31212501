---------------------------- MODULE SofaUpdateGen ----------------------------
(***************************************************************************)
(* Prints behaviours of the updating of conventions (run with -simulate),   *)
(* which are replayed with the real library.                               *)
(***************************************************************************)
EXTENDS SofaUpdateMC

VARIABLE hist

GInit == /\ local = [std |-> Empty, dep |-> Empty] /\ remote = [std |-> {}, dep |-> {}, text |-> Empty]
         /\ done = 0 /\ last = [before |-> local, ok |-> FALSE] /\ hist = <<>>
Start == /\ hist = <<>>
         /\ local' = RandomElement(Locals) /\ remote' = RandomElement(Remotes)
         /\ hist' = <<[op |-> "start", local |-> local']>>
         /\ UNCHANGED <<done, last>>
GUpdate == /\ hist # <<>> /\ done < Steps /\ done' = done + 1
           /\ \E u \in {RandomElement(Users)}, fails \in {RandomElement({TRUE, FALSE, FALSE, FALSE})} :
                /\ local' = DoUpdate(local, remote, u.assume, u.answer, fails)
                /\ last' = [before |-> local, ok |-> ~fails /\ Confirmed(u.assume, u.answer)]
                /\ hist' = Append(hist, [op |-> "update", u |-> u, fails |-> fails,
                                         remote |-> remote, after |-> local'])
           \* the official conventions change from time to time
           /\ remote' = IF RandomElement({TRUE, FALSE}) THEN RandomElement(Remotes) ELSE remote
GNext == Start \/ GUpdate
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == done = Steps => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
