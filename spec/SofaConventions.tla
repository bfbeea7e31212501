--------------------------- MODULE SofaConventions ---------------------------
(***************************************************************************)
(* The convention data base (input data of the library), read from a json  *)
(* file that the harness derives from the rows of the data base.           *)
(***************************************************************************)
EXTENDS SofaValues, IOUtils, Json

DB == JsonDeserialize(IOEnv.SOFA_DB)

(* id -> [name, version, vnum, stable, deprecated, e]                      *)
(* e: entry name -> [m, r, t, dims, def]; dims: sequence of sequences      *)
Convs == DB.conventions
ConvIds == DOMAIN Convs
ConvNames == {Convs[c].name : c \in ConvIds}
Exists(name, version) == \E c \in ConvIds : Convs[c].name = name /\ Convs[c].version = version
ConvId(name, version) == CHOOSE c \in ConvIds : Convs[c].name = name /\ Convs[c].version = version
Latest(name) ==
  CHOOSE c \in ConvIds : /\ Convs[c].name = name
                         /\ \A d \in ConvIds : Convs[d].name = name => Convs[d].vnum <= Convs[c].vnum
Entries(c) == IF c = "" THEN Empty ELSE Convs[c].e

(* rules: sequence of [key, any, value, general, specific]                 *)
(* specific: sequence of [val, deps: <<[key, any, ref]>>, dims: <<[dim, sizes]>>] *)
Rules == DB.rules
Aliases == DB.aliases
DeprecatedNames == DOMAIN DB.deprecations
(* upgrade: name -> sequence of [from, to, move, remove, messages]         *)
UpgradeRules == DB.upgrade

Volatile == {"GLOBAL_DateCreated", "GLOBAL_DateModified", "GLOBAL_APIName",
             "GLOBAL_APIVersion", "GLOBAL_ApplicationName",
             "GLOBAL_ApplicationVersion"}

(* What the names say.  (Evaluated once for all names of the data base.)   *)
NameFact(n) ==
  LET u == HasCh(n, "_") g == StartsWith(n, "GLOBAL") g_ == StartsWith(n, "GLOBAL_") IN
  [u |-> u,                                       \* any underscore
   parent |-> IF u THEN BeforeLast(n, "_") ELSE n, \* variable of the attribute
   vu |-> HasCh(Without(n, "Data_"), "_"),        \* underscore in the name of a variable
   global |-> g_,
   private |-> StartsWith(n, "PRIVATE") \/ StartsWith(n, "API") \/ (g /\ ~g_),
   bare |-> StripPrefix(n, "GLOBAL_"),
   units |-> EndsWith(n, "_Units")]
DBNames == UNION {DOMAIN Convs[c].e : c \in ConvIds}
NameFacts == [n \in DBNames |-> NameFact(n)]
Fact(n) == IF n \in DBNames THEN NameFacts[n] ELSE NameFact(n)
MandatoryNames == [c \in ConvIds |-> {n \in DOMAIN Convs[c].e : Convs[c].e[n].m}]
NormativeNames == [c \in ConvIds |-> {NameFact(n).bare : n \in DOMAIN Convs[c].e}]

(* attributes of the class: hasattr is true for these names                *)
ClassNames == {"copy", "verify", "delete", "inspect", "info", "add_missing",
               "add_variable", "add_attribute", "protected", "upgrade_convention"}
==============================================================================
