----------------------------- MODULE SofarEdges -----------------------------
(***************************************************************************)
(* Prints each transition of SofarMC (calls in Final only) with a history  *)
(* that leads to it, for replaying it on the library (harness/replay.py).  *)
(***************************************************************************)
EXTENDS SofarMC

CONSTANT Final      \* kinds of calls

VARIABLE hist       \* indices of the calls, text

EInit == Init /\ hist = ""
(* calls with unspecified outcome are made as well, but not continued      *)
ECall(k) ==
  LET c == Calls[k] IN
  /\ Possible(c) /\ Start(c)
  /\ IF c.op \in Final THEN PrintT(<<"EDGE", hist, k>>) ELSE TRUE
  /\ TLCGet("level") < Depth
  /\ Call(k)
  /\ hist' = hist \o ToString(k) \o "."
ENext == TLCGet("level") <= Depth /\ \E k \in DOMAIN Calls : ECall(k)
ESpec == EInit /\ [][ENext]_<<vars, hist>>
ASSUME PrintT(<<"CALLS", ToJson(Calls)>>)
=============================================================================
