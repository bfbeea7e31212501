---------------------------- MODULE SofaStreams -----------------------------
(***************************************************************************)
(* The life of streams.  A stream is bound to one file, which is open from *)
(* entering the stream (with) until leaving it, however it is left.  Any   *)
(* number of streams can be open at the same time, also on the same file,  *)
(* and a stream that was left can be entered again.                        *)
(*   streams: id -> [path, open]                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

(* entering a (new) stream i on the file p                                 *)
CanEnter(fs, p) == p \in DOMAIN fs
Enter(ss, fs, i, p) == (i :> [path |-> p, open |-> CanEnter(fs, p)]) @@ ss
Leave(ss, i) == [ss EXCEPT ![i].open = FALSE]

IsOpen(ss, i) == i \in DOMAIN ss /\ ss[i].open
(* the file is open (and can not be written)                               *)
Busy(ss, p) == \E i \in DOMAIN ss : ss[i].open /\ ss[i].path = p
=============================================================================
