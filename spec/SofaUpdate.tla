----------------------------- MODULE SofaUpdate -----------------------------
(***************************************************************************)
(* Updating the conventions.                                               *)
(*   local:  [std, dep], each a function from names to texts               *)
(*   remote: [std, dep, text]: sets of listed names and their texts        *)
(***************************************************************************)
EXTENDS SofaCompile

Skipped(n) == StartsWith(n, "General_") \/ StartsWith(n, "GeneralString_")
Listed(remote) == {n \in remote.std \cup remote.dep : ~Skipped(n)}
Standard(remote, n) == n \in remote.std

Same(folder, n, text) == n \in DOMAIN folder /\ NormText(folder[n]) = NormText(text)

(* what has to be done for a listed convention                             *)
Work(local, remote, n) ==
  IF Standard(remote, n)
    THEN IF n \notin DOMAIN local.std THEN "add"
         ELSE IF Same(local.std, n, remote.text[n]) THEN "" ELSE "update"
  ELSE IF n \in DOMAIN local.std THEN "deprecate"
  ELSE IF n \notin DOMAIN local.dep THEN "add deprecated"
  ELSE IF Same(local.dep, n, remote.text[n]) THEN "" ELSE "update deprecated"
Todo(local, remote) == {n \in Listed(remote) : Work(local, remote, n) # ""}

Confirmed(assume, answer) == assume \/ answer = "y"
Asked(local, remote, assume) == ~assume /\ Todo(local, remote) # {}

(* the sources after the update                                            *)
Updated(local, remote) ==
  LET T == Todo(local, remote)
      S == {n \in T : Standard(remote, n)}
      D == T \ S
  IN [std |-> [n \in S |-> remote.text[n]] @@ Remove(local.std, D),
      dep |-> [n \in D |-> remote.text[n]] @@ local.dep]

DoUpdate(local, remote, assume, answer, fails) ==
  IF fails \/ Todo(local, remote) = {} \/ ~Confirmed(assume, answer) THEN local
  ELSE Updated(local, remote)

(* same sources up to what has no meaning                                  *)
SameTexts(f, g) == DOMAIN f = DOMAIN g /\ \A n \in DOMAIN f : NormText(f[n]) = NormText(g[n])
=============================================================================
