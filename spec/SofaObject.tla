----------------------------- MODULE SofaObject -----------------------------
(***************************************************************************)
(* SOFA objects and the operations that edit them.                         *)
(*                                                                         *)
(*   [conv, rocv, cust, data, prot]                                        *)
(*   conv: id of the loaded convention ("" if none)                        *)
(*   rocv: id of the convention that defines the read only entries         *)
(*   cust: custom entries, name -> [t, dims]                               *)
(*   data: name -> value                                                   *)
(*   prot: is the object protected?                                        *)
(*                                                                         *)
(* Every operation Do...(o, args) yields [exc, o, ...] where exc is the     *)
(* expected class of the exception ("" if there is none, "any" if the call *)
(* is outside of what is specified and may or may not raise).              *)
(***************************************************************************)
EXTENDS SofaConventions

NoObject == [conv |-> "", rocv |-> "", cust |-> Empty, data |-> Empty, prot |-> FALSE]

CustomEntry(c) == [m |-> FALSE, r |-> FALSE, t |-> c.t, dims |-> c.dims]

(* entry of the convention or custom entry                                 *)
IsEntry(o, n) == n \in DOMAIN Entries(o.conv) \/ n \in DOMAIN o.cust
Entry(o, n) == IF n \in DOMAIN Entries(o.conv) THEN Entries(o.conv)[n] ELSE CustomEntry(o.cust[n])
EntryNames(o) == DOMAIN Entries(o.conv) \cup DOMAIN o.cust

Mandatory(o, n) == IsEntry(o, n) /\ Entry(o, n).m
ReadOnly(o, n) == n \in DOMAIN Entries(o.rocv) /\ Entries(o.rocv)[n].r
HasAttr(o, n) == n \in DOMAIN o.data \/ n \in ClassNames

Res(exc, o) == [exc |-> exc, o |-> o]

-----------------------------------------------------------------------------
(* Creation                                                                *)
CreationDefault(e) ==
  CreationValue(e.def, IF e.dims = <<>> THEN 0 ELSE Len(e.dims[1]))
NewData(c, mandatory) ==
  LET e == Entries(c)
      names == {n \in DOMAIN e : e[n].m \/ ~mandatory}
  IN [n \in names |-> Norm(CreationDefault(e[n]))]
NewObject(c, mandatory) ==
  [conv |-> c, rocv |-> c, cust |-> Empty, data |-> NewData(c, mandatory), prot |-> TRUE]

-----------------------------------------------------------------------------
(* Assignment and deletion                                                 *)
DoSet(o, n, x) ==
  IF o.prot /\ ~HasAttr(o, n) THEN Res("TypeError", o)
  ELSE IF o.prot /\ ReadOnly(o, n) THEN Res("TypeError", o)
  ELSE IF x.k = "x" THEN Res("ValueError", o)
  ELSE Res("", [o EXCEPT !.data = (n :> Norm(x)) @@ o.data])

DoDel(o, n) ==
  IF n \notin DOMAIN o.data THEN Res("TypeError", o)
  ELSE IF o.prot /\ ~IsEntry(o, n) THEN Res("any", o)
  ELSE IF o.prot /\ Entry(o, n).m THEN Res("TypeError", o)
  ELSE Res("", [o EXCEPT !.data = Remove(o.data, {n}),
                         !.cust = Remove(o.cust, {n})])

(* bool: is the assigned value a bool, v: its value                        *)
DoProtect(o, bool, v) ==
  IF bool THEN Res("", [o EXCEPT !.prot = v]) ELSE Res("ValueError", o)

-----------------------------------------------------------------------------
(* Custom data                                                             *)
SofaDims == {"E", "R", "M", "N", "C", "I", "S"}

(* "" if the entry can be added, the reason otherwise                      *)
AddRefusal(o, n, t, dims) ==
  IF HasAttr(o, n) THEN "exists"
  ELSE IF t \notin {"attribute", "double", "string"} THEN "type"
  ELSE IF t # "attribute" /\ HasCh(n, "_") THEN "underscore"
  ELSE IF t # "attribute" /\ (HasCh(n, ".") \/ HasCh(n, "/")) THEN "name in files"
  ELSE IF t = "attribute" /\ ~HasCh(n, "_") THEN "form"
  ELSE IF t = "attribute" /\ ~( \/ Count(n, "_") = 1
                                \/ /\ Count(n, "_") = 2
                                   /\ StartsWith(n, "Data_")
                                   /\ IsEntry(o, BeforeLast(n, "_"))) THEN "form"
  ELSE IF t = "attribute" /\ ~StartsWith(n, "GLOBAL_")
          /\ ~IsEntry(o, BeforeLast(n, "_")) THEN "no variable"
  ELSE IF t # "attribute" /\ dims = "none" THEN "dimensions"
  ELSE ""

(* custom dimensions are kept as lower case letters                        *)
CustomDims(dims) ==
  IF dims = "none" THEN <<>>
  ELSE << [i \in Idx(dims) |-> IF Upper(Ch(dims, i)) \in SofaDims
                               THEN Upper(Ch(dims, i)) ELSE Lower(Ch(dims, i))] >>

(* the characters of strings are stored along the dimension S              *)
AddedDims(t, dims) ==
  LET d == CustomDims(dims)
  IN IF t = "string" /\ d # <<>> /\ "S" \notin Range(d[1]) THEN <<Append(d[1], "S")>> ELSE d

(* adding tells about dimensions that SOFA does not know                   *)
NewDimension(dims) ==
  dims # "none" /\ \E i \in Idx(dims) : Upper(Ch(dims, i)) \notin SofaDims

DoAdd(o, n, x, t, dims) ==
  IF AddRefusal(o, n, t, dims) # "" \/ x.k = "x" THEN Res("ValueError", o)
  ELSE Res("", [o EXCEPT
         !.data = (n :> Norm(x)) @@ o.data,
         !.prot = TRUE,
         !.cust = IF IsEntry(o, n) THEN o.cust
                  ELSE (n :> [t |-> t, dims |-> AddedDims(t, dims)]) @@ o.cust])

-----------------------------------------------------------------------------
(* Loading the convention that the data claims to follow                   *)
TextOf(o, n) == IF n \in DOMAIN o.data /\ o.data[n].k = "s" THEN o.data[n].v[1] ELSE "?"
ClaimedName(o) == TextOf(o, "GLOBAL_SOFAConventions")
ClaimedVersion(o) == TextOf(o, "GLOBAL_SOFAConventionsVersion")
CanReset(o) == Exists(ClaimedName(o), ClaimedVersion(o))
Claims(o) == {"GLOBAL_SOFAConventions", "GLOBAL_SOFAConventionsVersion"} \subseteq DOMAIN o.data
ResetExc(o) == IF Claims(o) THEN "ValueError" ELSE "any"
Reset(o) ==
  LET c == ConvId(ClaimedName(o), ClaimedVersion(o))
  IN [o EXCEPT !.conv = c, !.cust = Remove(o.cust, DOMAIN Entries(c))]

(* Missing data                                                            *)
Missing(o, mandatory, optional) ==
  {n \in DOMAIN Entries(o.conv) : /\ n \notin DOMAIN o.data
                                  /\ IF Entries(o.conv)[n].m THEN mandatory ELSE optional}
AddDefaults(o, names) ==
  [o EXCEPT !.data = [n \in names |-> Norm(Entries(o.conv)[n].def)] @@ o.data]

DoAddMissing(o, mandatory, optional) ==
  IF ~CanReset(o) THEN Res(ResetExc(o), o) @@ [added |-> {}]
  ELSE LET r == Reset(o)
           a == Missing(r, mandatory, optional)
       IN Res("", [AddDefaults(r, a) EXCEPT !.prot = TRUE]) @@ [added |-> a]
=============================================================================
