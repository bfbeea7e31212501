-------------------------- MODULE SofaCongruencyMC --------------------------
(***************************************************************************)
(* All combinations of two platforms for a few conventions, printed for    *)
(* replaying them on the library.                                          *)
(***************************************************************************)
EXTENDS SofaCongruency, Json

CONSTANT Conv
Skip == {"General_1.0.csv", "GeneralString_0.2.csv"}
Line(cells, r) == [c |-> cells, r |-> r]
Row(v, form) ==
  Line(<<"GLOBAL:Title", v, "m", "", "attribute", "c">> \o (IF form \in {1, 3} THEN <<"", "">> ELSE <<>>),
       form \in {2, 3})
Tab(v, form) == <<Line(<<"Name", "Default", "Flags", "Dimensions", "Type", "Comment">>, form >= 2), Row(v, form)>>

Status == {"none", "org", "box", "same", "form", "tabs", "value"}
VARIABLES org, box, w
vars == <<org, box, w>>
On(s, p) == {n \in DOMAIN s : s[n] # "none" /\ s[n] # (IF p = "org" THEN "box" ELSE "org")}
Init ==
  /\ w \in [Conv \cup Skip -> Status]
  /\ \A n \in Skip : w[n] \in {"none", "org", "same", "value"}
  /\ org = [n \in On(w, "org") |-> Tab("a", 0)]
  /\ box = [n \in On(w, "box") |-> CASE w[n] = "form" -> Tab("a", 2)
                                     [] w[n] = "tabs" -> Tab("a", 3)
                                     [] w[n] = "value" -> Tab("b", 0)
                                     [] OTHER -> Tab("a", 0)]
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

r == Report_(org, box)
(* each convention of any platform is either the same or reported once      *)
Partition ==
  /\ \A n \in Conv :
       /\ (w[n] = "org" <=> n \in r.box) /\ (w[n] = "box" <=> n \in r.org)
       /\ (w[n] = "value" <=> n \in r.differ)
  /\ (r.box \cup r.org \cup r.differ) \cap Skip = {}
  /\ (Silent(r) <=> \A n \in Conv : w[n] \in {"none", "same", "form", "tabs"})
  /\ DOMAIN Saved(org, box).org = r.differ /\ DOMAIN Saved(org, box).box = r.differ
(* the platforms are treated alike                                          *)
Symmetric == LET s == Report_(box, org) IN s.box = r.org /\ s.org = r.box /\ s.differ = r.differ
Emit == PrintT(<<"BEH", ToJson([org |-> org, box |-> box])>>)
=============================================================================
