--------------------------- MODULE SofaCongruency ---------------------------
(***************************************************************************)
(* The official conventions are published on two platforms.  A platform    *)
(* is a function from the names of the listed files to their texts.        *)
(***************************************************************************)
EXTENDS SofaUpdate

Considered(p) == {n \in DOMAIN p : ~Skipped(n)}
MissingIn(p, q) == Considered(q) \ DOMAIN p
Differ(p, q) == {n \in Considered(p) \cap DOMAIN q : NormText(p[n]) # NormText(q[n])}

Report_(org, box) == [box |-> MissingIn(box, org), org |-> MissingIn(org, box), differ |-> Differ(org, box)]
Silent(r) == r.box = {} /\ r.org = {} /\ r.differ = {}
(* what is saved for inspection                                            *)
Saved(org, box) == [org |-> Restrict(org, Differ(org, box)), box |-> Restrict(box, Differ(org, box))]
=============================================================================
