--------------------------- MODULE SofaStreamsMC ----------------------------
(***************************************************************************)
(* All histories of a few calls of streams on a few files, which are       *)
(* printed to be replayed.                                                 *)
(***************************************************************************)
EXTENDS SofaStreams, FiniteSets, Json

CONSTANTS Ids, Paths, Depth

VARIABLES ss,       \* streams
          fs,       \* path -> version of the content
          n,        \* number of versions
          entered,  \* id -> content of the file when the stream was entered
          hist      \* calls
vars == <<ss, fs, n, entered, hist>>

Init == /\ ss = <<>> /\ fs = [p \in Paths |-> 0] /\ n = 0
        /\ entered = <<>> /\ hist = <<>>

Did(op, i, p, e) == hist' = Append(hist, [op |-> op, id |-> i, path |-> p, error |-> e])
Open(i, p) ==
  /\ ~IsOpen(ss, i)
  /\ ss' = Enter(ss, fs, i, p)
  /\ entered' = IF CanEnter(fs, p) THEN (i :> fs[p]) @@ entered ELSE entered
  /\ Did("open", i, p, FALSE) /\ UNCHANGED <<fs, n>>
Again(i) ==
  /\ i \in DOMAIN ss /\ ~ss[i].open
  /\ ss' = Enter(ss, fs, i, ss[i].path)
  /\ entered' = IF CanEnter(fs, ss[i].path) THEN (i :> fs[ss[i].path]) @@ entered ELSE entered
  /\ Did("again", i, ss[i].path, FALSE) /\ UNCHANGED <<fs, n>>
Close(i, e) ==
  /\ IsOpen(ss, i)
  /\ ss' = Leave(ss, i)
  /\ Did("close", i, ss[i].path, e) /\ UNCHANGED <<fs, n, entered>>
Rewrite(p) ==
  /\ ~Busy(ss, p) /\ n' = n + 1
  /\ fs' = (p :> n') @@ fs
  /\ Did("rewrite", "", p, FALSE) /\ UNCHANGED <<ss, entered>>
Delete(p) ==
  /\ ~Busy(ss, p) /\ p \in DOMAIN fs
  /\ fs' = [q \in DOMAIN fs \ {p} |-> fs[q]]
  /\ Did("remove", "", p, FALSE) /\ UNCHANGED <<ss, n, entered>>

Next ==
  /\ Len(hist) < Depth
  /\ \/ \E i \in Ids : \/ \E p \in Paths : Open(i, p)
                       \/ Again(i)
                       \/ \E e \in BOOLEAN : Close(i, e)
     \/ \E p \in Paths : Rewrite(p) \/ Delete(p)
Spec == Init /\ [][Next]_vars

(* an open stream shows its file as it was when the stream was entered     *)
OwnFile == \A i \in DOMAIN ss : ss[i].open => /\ ss[i].path \in DOMAIN fs
                                              /\ fs[ss[i].path] = entered[i]
(* a call concerns one stream and the others are as before                 *)
Independent == [][Cardinality({i \in Ids : IsOpen(ss, i) # IsOpen(ss', i)}) <= 1
                  /\ \A i \in DOMAIN ss : IsOpen(ss, i) /\ IsOpen(ss', i) => ss'[i] = ss[i]]_vars
(* no file is left open                                                    *)
Released == \A p \in Paths : Busy(ss, p) => \E i \in Ids : IsOpen(ss, i) /\ ss[i].path = p
Report == Len(hist) = Depth => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
