---------------------------- MODULE SofaUpdateMC ----------------------------
(***************************************************************************)
(* All histories of updates for a few conventions.  In each step the       *)
(* official conventions change, and the user updates, declines, or a       *)
(* download fails.  Also prints the behaviours that are replayed.          *)
(***************************************************************************)
EXTENDS SofaUpdate, Json

CONSTANTS Conv,     \* names of conventions
          Old,      \* name of a convention that is not listed any more
          Steps     \* number of updates

Line(cells, r) == [c |-> cells, r |-> r]
Row(v, form) ==
  Line(<<"GLOBAL:Title", v, "m", "", "attribute", "c">> \o (IF form \in {1, 3} THEN <<"", "">> ELSE <<>>),
       form \in {2, 3})
TextOf_(v, form) == <<Line(<<"Name", "Default", "Flags", "Dimensions", "Type", "Comment">>, form >= 2), Row(v, form)>>
Texts == {TextOf_(v, f) : v \in {"a", "b"}, f \in 0..3}

VARIABLES local, remote, done, last
vars == <<local, remote, done, last>>

(* statuses of a convention: where it is, and its text                     *)
Where == {"none", "std", "dep", "both"}
Locals == {[std |-> [n \in {m \in Conv : w[m] \in {"std", "both"}} |-> TextOf_(v[n], f[n])] @@
                    [n \in {Old} |-> TextOf_("a", 0)],
            dep |-> [n \in {m \in Conv : w[m] \in {"dep", "both"}} |-> TextOf_(v[n], f[n])]]
           : w \in [Conv -> Where], v \in [Conv -> {"a"}], f \in [Conv -> {0, 3}]}
Remotes == {[std |-> {m \in Conv : w[m] \in {"std", "both"}} \cup {"General_1.0.csv"},
             dep |-> {m \in Conv : w[m] \in {"dep", "both"}} \cup {"GeneralString_0.1.csv"},
             text |-> [n \in Conv \cup {"General_1.0.csv", "GeneralString_0.1.csv"} |->
                         IF n \in Conv THEN TextOf_(v[n], f[n]) ELSE TextOf_("a", 0)]]
            : w \in [Conv -> Where], v \in [Conv -> {"a", "b"}], f \in [Conv -> {0, 1, 2}]}

Users == {[assume |-> TRUE, answer |-> ""]} \cup {[assume |-> FALSE, answer |-> a] : a \in {"y", "n", "Y", ""}}

Init == /\ local \in Locals /\ remote \in Remotes /\ done = 0
        /\ last = [before |-> local, ok |-> FALSE]

Change == /\ remote' \in Remotes
          /\ UNCHANGED <<local, done, last>>
Update == /\ done < Steps /\ done' = done + 1
          /\ \E u \in Users, fails \in BOOLEAN :
               /\ local' = DoUpdate(local, remote, u.assume, u.answer, fails)
               /\ last' = [before |-> local, ok |-> ~fails /\ Confirmed(u.assume, u.answer)]
          /\ UNCHANGED remote
Next == Update
Spec == Init /\ [][Next]_vars

(* what the property says                                                  *)
Mirror ==
  (done > 0 /\ last.ok) =>
    \A n \in Listed(remote) :
      /\ IF Standard(remote, n) THEN Same(local.std, n, remote.text[n])
         ELSE Same(local.dep, n, remote.text[n]) /\ n \notin DOMAIN local.std
Nothing == (done > 0 /\ ~last.ok) => local = last.before
Untouched ==
  /\ Old \in DOMAIN local.std /\ local.std[Old] = TextOf_("a", 0)
  /\ \A n \in (DOMAIN last.before.dep) \ Listed(remote) :
       n \in DOMAIN local.dep /\ local.dep[n] = last.before.dep[n]
Never == \A n \in DOMAIN local.std \cup DOMAIN local.dep : ~Skipped(n)
UpToDate == (done > 0 /\ last.ok) => Todo(local, remote) = {}
(* only what has a different meaning is replaced                           *)
Minimal == \A n \in Conv : Same(last.before.std, n, remote.text[n]) /\ Standard(remote, n)
                             => local.std[n] = last.before.std[n]
=============================================================================
