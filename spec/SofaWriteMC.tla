---------------------------- MODULE SofaWriteMC -----------------------------
(***************************************************************************)
(* Writing files step by step, with failures and interruptions at any      *)
(* step.  Every write goes through a place of its own, which replaces the  *)
(* file when it is complete.  The histories of complete calls are printed  *)
(* to be replayed.                                                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json

CONSTANTS Paths, Parts, Depth

Absent == [ver |-> 0, parts |-> 0]
Whole(v) == [ver |-> v, parts |-> Parts]

VARIABLES disk,   \* path -> content
          temp,   \* content of the temporary file
          pc,     \* "idle", "filling", "closing"
          job,    \* [path, ver] that is written
          n,      \* number of versions
          rest,   \* number of temporary files that were left
          start,  \* disk when the call started
          last,   \* outcome of the last call
          hist    \* calls [path, how]
vars == <<disk, temp, pc, job, n, rest, start, last, hist>>

Init == /\ disk = [p \in Paths |-> Absent] /\ temp = Absent /\ pc = "idle"
        /\ job = [path |-> "", ver |-> 0] /\ n = 0 /\ rest = 0
        /\ start = disk /\ last = "none" /\ hist = <<>>

Did(p, how) == /\ hist' = Append(hist, [path |-> p, how |-> how]) /\ last' = how

(* the object is not valid, or the level of compression                    *)
Refuse(p, how) ==
  /\ pc = "idle" /\ Len(hist) < Depth
  /\ start' = disk
  /\ Did(p, how) /\ UNCHANGED <<disk, temp, pc, job, n, rest>>
Begin(p) ==
  /\ pc = "idle" /\ Len(hist) < Depth
  /\ n' = n + 1 /\ job' = [path |-> p, ver |-> n']
  /\ temp' = [ver |-> n', parts |-> 0] /\ pc' = "filling"
  /\ start' = disk
  /\ UNCHANGED <<disk, rest, last, hist>>
Fill ==
  /\ pc = "filling"
  /\ temp' = [temp EXCEPT !.parts = @ + 1]
  /\ pc' = IF temp'.parts = Parts THEN "closing" ELSE "filling"
  /\ UNCHANGED <<disk, job, n, rest, start, last, hist>>
Replace ==
  /\ pc = "closing"
  /\ disk' = [disk EXCEPT ![job.path] = temp]
  /\ temp' = Absent /\ pc' = "idle"
  /\ Did(job.path, "done") /\ UNCHANGED <<job, n, rest, start>>
(* no space left, or something that can not be stored                      *)
Fail(how) ==
  /\ pc # "idle"
  /\ temp' = Absent /\ pc' = "idle"
  /\ Did(job.path, how) /\ UNCHANGED <<disk, job, n, rest, start>>
Kill ==
  /\ pc # "idle"
  /\ rest' = rest + 1 /\ temp' = Absent /\ pc' = "idle"
  /\ Did(job.path, "killed") /\ UNCHANGED <<disk, job, n, start>>

Next == \/ \E p \in Paths : Begin(p) \/ \E how \in {"invalid", "level"} : Refuse(p, how)
        \/ Fill \/ Replace \/ Kill
        \/ \E how \in {"name", "full"} : Fail(how)
Spec == Init /\ [][Next]_vars

(* at any time, a reader finds nothing or a complete file                  *)
Complete == \A p \in Paths : disk[p] = Absent \/ \E v \in 1..n : disk[p] = Whole(v)
(* a call that did not succeed changed nothing                             *)
Unchanged == (pc = "idle" /\ last \notin {"none", "done"}) => disk = start
(* a call that succeeded wrote all of its file and no other                *)
Written == (pc = "idle" /\ last = "done") => disk = [start EXCEPT ![job.path] = Whole(job.ver)]
(* only processes that were killed leave something                         *)
Tidy == pc = "idle" => temp = Absent /\ (rest > 0 => \E i \in DOMAIN hist : hist[i].how = "killed")
Report == (pc = "idle" /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
(* the step by step description is a correct refinement of atomic writes   *)
Atomic == [][\E p \in Paths, v \in 1..n' : disk' = [disk EXCEPT ![p] = Whole(v)]]_disk
=============================================================================
