----------------------------- MODULE SofaQuery ------------------------------
(***************************************************************************)
(* Operations that only look at objects: comparison, dimensions,           *)
(* inspection, and information about the convention.                       *)
(***************************************************************************)
EXTENDS SofaUpgrade

-----------------------------------------------------------------------------
(* equals: near is a set of pairs of different numbers that agree within   *)
(* the tolerance                                                           *)
Compared(o, exclude) ==
  {n \in DOMAIN o.data :
     CASE Upper(exclude) = "GLOBAL" -> ~StartsWith(n, "GLOBAL_")
       [] Upper(exclude) = "ATTR" -> ~(IsEntry(o, n) /\ IsAttr(o, n))
       [] Upper(exclude) = "DATE" -> ~Contains(n, "Date")
       [] OTHER -> TRUE}
ExcludeOk(exclude) == exclude = "none" \/ Upper(exclude) \in {"GLOBAL", "ATTR", "DATE"}

SameNumber(a, b, near) == a = b \/ <<a, b>> \in near
SameEntry(a, b, n, near) ==
  LET x == a.data[n] y == b.data[n] t == Entry(a, n).t IN
  /\ t = Entry(b, n).t
  /\ Len(x.v) = Len(y.v)
  /\ t = "attribute" \/ Squeeze(x.sh) = Squeeze(y.sh)
  /\ \A i \in DOMAIN x.v : IF t = "double" THEN SameNumber(x.v[i], y.v[i], near)
                                           ELSE x.v[i] = y.v[i]
Equal(a, b, exclude, near) ==
  /\ Compared(a, exclude) = Compared(b, exclude)
  /\ \A n \in Compared(a, exclude) : SameEntry(a, b, n, near)
Comparable(o) == \A n \in DOMAIN o.data : IsEntry(o, n) /\ TypeOk(Entry(o, n).t, o.data[n])

-----------------------------------------------------------------------------
(* dimensions                                                              *)
DimsOutcomes(o) ==
  {IF r.vague THEN [exc |-> "any", o |-> r.o, api |-> Empty]
   ELSE IF r.exc # "" THEN [exc |-> r.exc, o |-> r.o, api |-> Empty]
   ELSE IF r.early \/ \E i \in r.issues : i.c \in {"type", "shape"}
     THEN [exc |-> "ValueError", o |-> r.o, api |-> Empty]
   ELSE [exc |-> "", o |-> r.o, api |-> r.api] : r \in Verifications(o, "write", "return")}

(* what the dimension d counts (the possible descriptions)                 *)
CountedBy(type, what) ==
  IF Contains(type, "harmonic") THEN {what \o " spherical harmonics coefficients"}
  ELSE IF Contains(Lower(type), "harmonic") THEN {what, what \o " spherical harmonics coefficients"}
  ELSE {what}
DimTexts(d, datatype, receivers, emitters) ==
  CASE d = "M" -> {"measurements"}
    [] d = "N" -> {IF StartsWith(datatype, "FIR") THEN "samples"
                   ELSE IF StartsWith(datatype, "TF") THEN "frequencies"
                   ELSE IF StartsWith(datatype, "SOS") THEN "SOS coefficients"
                   ELSE "samples, frequencies, or SOS coefficients"}
    [] d = "R" -> CountedBy(receivers, "receiver")
    [] d = "E" -> CountedBy(emitters, "emitter")
    [] d = "S" -> {"maximum string length"}
    [] d = "C" -> {"coordinate dimensions, fixed"}
    [] d = "I" -> {"single dimension, fixed"}
    [] OTHER -> {"custom dimension"}

-----------------------------------------------------------------------------
(* inspect and info                                                        *)
Header(o) == TextOf(o, "GLOBAL_SOFAConventions") \o " "
             \o TextOf(o, "GLOBAL_SOFAConventionsVersion") \o " (SOFA version "
             \o TextOf(o, "GLOBAL_Version") \o ")"
Named(o) == "sofar.SOFA object: " \o TextOf(o, "GLOBAL_SOFAConventions") \o " "
            \o TextOf(o, "GLOBAL_SOFAConventionsVersion")
Zip(d, sh) == LET p == Pad(sh, Len(d)) IN SubSeq(p, 1, Len(d))
(* does the observed line of an entry show the value?                      *)
ShowsAttr(x, line) == line.raw = x.v[1] /\ line.dims = <<>>
ShowsScalar(x, line) == line.dims = <<>> /\ (line.x = x.v \/ line.raw = x.v[1])
ShowsArray(x, d, line) ==
  /\ line.dims = SubSeq(d, 1, Len(line.dims))
  /\ Len(line.dims) = (IF Len(Pad(x.sh, Len(d))) < Len(d) THEN Len(Pad(x.sh, Len(d))) ELSE Len(d))
  /\ line.sh = Zip(d, x.sh)
  /\ IF Len(x.v) < 7 THEN line.x = x.v ELSE ~line.has
Shows(o, r, n, line) ==
  LET x == o.data[n] IN
  IF Entry(o, n).t = "attribute" THEN ShowsAttr(x, line)
  ELSE IF Len(x.v) = 1 THEN ShowsScalar(x, line)
  ELSE ShowsArray(x, r.dims[n], line)

RECURSIVE Commas(_)
Commas(dims) ==
  IF dims = <<>> THEN ""
  ELSE Upper(Letters_(Head(dims))) \o (IF Len(dims) > 1 THEN ", " ELSE "") \o Commas(Tail(dims))
InfoFilters == {"all", "mandatory", "optional", "read only", "data"}
InfoNames(o, what) ==
  IF what \in InfoFilters
    THEN {n \in DOMAIN o.data :
            LET e == Entry(o, n) IN
            CASE what = "mandatory" -> e.m
              [] what = "optional" -> ~e.m
              [] what = "read only" -> e.r
              [] what = "data" -> e.t # "attribute"
              [] OTHER -> TRUE}
    ELSE {n \in DOMAIN o.data : Contains(n, what)}
InfoOk(what, o) == what \in InfoFilters \/ what \in DOMAIN o.data
InfoEntry(o, n) ==
  LET e == Entry(o, n) IN [t |-> e.t, dims |-> Commas(e.dims), m |-> e.m, r |-> e.r]
(* default and comment of entries of the convention                        *)
InfoTexts(o, n, what, line) ==
  \/ n \notin DOMAIN Entries(o.conv)
  \/ LET e == Entries(o.conv)[n] IN
     /\ line.about = e.about
     /\ what \in InfoFilters \/ (IF e.def.k = "s" THEN line.raw = e.def.v[1] ELSE line.x = e.def.v)
=============================================================================
