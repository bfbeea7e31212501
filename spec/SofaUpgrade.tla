---------------------------- MODULE SofaUpgrade -----------------------------
(***************************************************************************)
(* Upgrading objects to other conventions.                                 *)
(***************************************************************************)
EXTENDS SofaFile

Upgrades(o) ==     \* indices of the rules for the convention and version
  LET name == ClaimedName(o) IN
  IF name \notin DOMAIN UpgradeRules THEN {}
  ELSE {i \in DOMAIN UpgradeRules[name] : ClaimedVersion(o) \in Range(UpgradeRules[name][i].from)}
UpgradeRule(o) == UpgradeRules[ClaimedName(o)][CHOOSE i \in Upgrades(o) : \A j \in Upgrades(o) : i <= j]
Targets(o) == IF Upgrades(o) = {} THEN {} ELSE Range(UpgradeRule(o).to)

RECURSIVE Moves(_, _)
Moves(data, moves) ==
  IF moves = <<>> THEN data
  ELSE LET m == Head(moves) IN
       IF m.src \notin DOMAIN data THEN Moves(data, Tail(moves))
       ELSE LET x == data[m.src]
                y == IF m.axis = <<>> THEN x ELSE MoveAxis(x, m.axis[1], m.axis[2])
            IN Moves((m.dst :> y) @@ Remove(data, {m.src}), Tail(moves))
(* moves of the rule that apply, in their order                            *)
RECURSIVE Applied(_, _)
Applied(data, moves) ==
  IF moves = <<>> THEN <<>>
  ELSE (IF Head(moves).src \in DOMAIN data THEN <<Head(moves)>> ELSE <<>>)
       \o Applied(Moves(data, <<Head(moves)>>), Tail(moves))

Keys == {"GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion",
         "GLOBAL_Version", "GLOBAL_DataType"}

Upgraded(o, rule, target) ==
  LET e == Entries(target)
      d1 == [n \in Keys |-> Norm(e[n].def)] @@ o.data
      d2 == Moves(d1, rule.move)
      d3 == Remove(d2, Range(rule.remove))
      o1 == [o EXCEPT !.conv = target, !.rocv = target, !.data = d3,
                      !.cust = Remove(o.cust, DOMAIN e)]
  IN [AddDefaults(o1, Missing(o1, TRUE, FALSE)) EXCEPT !.prot = TRUE]

(* What the user is told about the upgrade                                 *)
UpgradeReport(o, target) ==
  LET rule == UpgradeRule(o)
      valid == Upgrades(o) # {} /\ target \in Targets(o)
      d2 == Moves([n \in Keys |-> Norm(Entries(target)[n].def)] @@ o.data, rule.move)
      d3 == Remove(d2, Range(rule.remove))
      o1 == [o EXCEPT !.conv = target, !.data = d3]
  IN [uptodate |-> Upgrades(o) = {} /\ ClaimedName(o) \notin DeprecatedNames,
      norules |-> Upgrades(o) = {} /\ ClaimedName(o) \in DeprecatedNames,
      invalid |-> Upgrades(o) # {} /\ ~valid /\ target # "none",
      targets |-> IF valid THEN {} ELSE Targets(o),
      moved |-> IF valid THEN Applied(o.data, rule.move) ELSE <<>>,
      removed |-> IF valid THEN Range(rule.remove) \cap DOMAIN d2 ELSE {},
      added |-> IF valid THEN Missing(o1, TRUE, FALSE) ELSE {},
      messages |-> IF valid THEN Range(rule.messages) ELSE {}]

(* [exc, o, targets]: targets {} if nothing is returned                    *)
DoUpgrade(o0, target, verify) ==
  IF ~CanReset(o0) THEN [exc |-> ResetExc(o0), o |-> o0, targets |-> {}, done |-> FALSE]
  ELSE
  LET o == Reset(o0) IN
  IF Upgrades(o) = {} \/ target \notin Targets(o)
    THEN [exc |-> "", o |-> o, targets |-> Targets(o), done |-> FALSE]
  ELSE
  LET u == Upgraded(o, UpgradeRule(o), target)
      check == verify = "true" \/ (verify = "auto" /\ Convs[target].stable)
      r == Verify(u, "write", "raise")
  IN IF check THEN [exc |-> IF r.vague THEN "any" ELSE r.exc, o |-> r.o, targets |-> {}, done |-> TRUE]
     ELSE [exc |-> "", o |-> u, targets |-> {}, done |-> TRUE]
=============================================================================
