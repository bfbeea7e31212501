----------------------------- MODULE SofaVerify -----------------------------
(***************************************************************************)
(* Verification.  An issue is a record [s, c, n]: severity "E" or "W",     *)
(* class of the issue, and the name of the entry (or dimension).           *)
(***************************************************************************)
EXTENDS SofaObject

Iss(s, c, n) == [s |-> s, c |-> c, n |-> n]
Issues(s, c, names) == {Iss(s, c, n) : n \in names}

-----------------------------------------------------------------------------
(* Types                                                                   *)
TypeOk(t, x) ==
  CASE t = "attribute" -> x.k = "s"
    [] t = "double" -> x.k \in {"n", "a"} /\ x.t \in {"i", "f"}
    [] t = "string" -> x.k = "s" \/ (x.k = "a" /\ x.t \in {"U", "S"})
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Names                                                                   *)
IsAttr(o, n) == Entry(o, n).t = "attribute"
NoVariable(o, n) ==
  LET f == Fact(n) IN f.u /\ ~f.global /\ IsAttr(o, n) /\ ~HasAttr(o, f.parent)
NoUnderscore(o, n) == ~Fact(n).u /\ IsAttr(o, n)
VarUnderscore(o, n) == Fact(n).vu /\ ~IsAttr(o, n)
Reserved(o, n) == Fact(n).private \/ (Fact(n).global /\ ~IsAttr(o, n))
CustomName(o, n) == Fact(n).bare \in NormativeNames[o.conv]

NameIssues(o, names) ==
     Issues("E", "variable", {n \in names : NoVariable(o, n)})
  \cup Issues("E", "attribute", {n \in names : NoUnderscore(o, n)})
  \cup Issues("E", "underscore", {n \in names : VarUnderscore(o, n)})
  \cup Issues("E", "reserved", {n \in names : Reserved(o, n)})
  \cup Issues("E", "custom", {n \in DOMAIN o.cust : CustomName(o, n)})

-----------------------------------------------------------------------------
(* Dimensions and shapes                                                   *)
Variables(o) == {n \in DOMAIN o.data : IsEntry(o, n) /\ Entry(o, n).dims # <<>>}

StringShape(x) == IF x.k = "s" THEN <<1, 1>> ELSE x.sh
RECURSIVE MaxSeq(_)
MaxSeq(s) == IF s = <<>> THEN 0 ELSE LET m == MaxSeq(Tail(s)) IN IF Head(s) > m THEN Head(s) ELSE m

Defines(dims, i) == dims[i] \in LowerSet       \* dims[1] of the entry
(* sizes that the variables define for the dimensions (lower case letters) *)
Definitions(o) ==
  UNION {LET d == Entry(o, n).dims[1] IN
         {<<ToUpp[d[i]], Pad(o.data[n].sh, 4)[i]>> :
            i \in {j \in DOMAIN d : d[j] \in LowerSet /\ j <= Len(Pad(o.data[n].sh, 4))}}
         : n \in Variables(o)}
StringLength(o) ==
  LET S == {n \in Variables(o) : "S" \in Range(Entry(o, n).dims[1])}
  IN IF S = {} THEN 0 ELSE MaxOf({MaxSeq(o.data[n].w) : n \in S})

Fixed(o) == [C |-> 3, I |-> 1, S |-> StringLength(o)]
(* A dimension that several variables define differently is one of these   *)
(* sizes (at least one of the variables has a wrong shape in any case).    *)
ApiChoices(o) ==
  LET D == Definitions(o)
      names == {d[1] : d \in D} \ {"C", "I", "S"}
      sizes == [d \in names |-> {e[2] : e \in {f \in D : f[1] = d}}]
      RECURSIVE Choose(_)
      Choose(ns) == IF ns = {} THEN {Empty}
                    ELSE LET n == CHOOSE n \in ns : TRUE
                         IN {(n :> s) @@ f : s \in sizes[n], f \in Choose(ns \ {n})}
  IN {f @@ Fixed(o) : f \in Choose(names)}

(* a dimension that is not defined at all, or is defined by an axis that   *)
(* the data does not have; or numbers along the dimension of characters,    *)
(* or characters along another one                                        *)
Undefined(o) ==
  LET dims == {d[1] : d \in Definitions(o)} \cup {"C", "I", "S"}
  IN \/ \E n \in Variables(o) : Entry(o, n).t = "double" /\ "S" \in Range(Entry(o, n).dims[1])
     \/ \E n \in Variables(o) : /\ Entry(o, n).t = "string"
                                /\ \/ Entry(o, n).dims[1] = <<>>
                                   \/ Entry(o, n).dims[1][Len(Entry(o, n).dims[1])] # "S"
     \/ \E n \in Variables(o) : \E d \in DOMAIN Entry(o, n).dims :
           \E i \in DOMAIN Entry(o, n).dims[d] : Upper(Entry(o, n).dims[d][i]) \notin dims
     \/ \E n \in Variables(o) : \E i \in DOMAIN Entry(o, n).dims[1] :
           Entry(o, n).dims[1][i] \in LowerSet /\ i > Len(Pad(o.data[n].sh, 4))

(* shape of a variable for the comparison, and if it is acceptable to      *)
(* ignore everything beyond the first k dimensions                         *)
ActualShape(o, n) ==
  LET x == o.data[n] e == Entry(o, n) IN
  IF e.t # "double" THEN StringShape(x)
  ELSE IF Len(e.dims[1]) > 1 THEN AtLeast(x.sh, 4)
  ELSE <<Size(x.sh)>>
ExcessOk(o, n, k) ==
  LET x == o.data[n] e == Entry(o, n) IN
  IF e.t = "double" /\ k = 1 THEN Len(Squeeze(x.sh)) <= 1
  ELSE AllOnes(SubSeq(ActualShape(o, n), k + 1, Len(ActualShape(o, n))))
Matches(o, api, n, dim) ==
  LET ref == [i \in DOMAIN dim |-> IF dim[i] = "S" THEN 1 ELSE api[Upper(dim[i])]]
      act == ActualShape(o, n)
  IN Pad(SubSeq(act, 1, IF Len(act) < Len(ref) THEN Len(act) ELSE Len(ref)), Len(ref)) = ref
     /\ ExcessOk(o, n, Len(ref))
(* the first of the allowed combinations of dimensions that matches        *)
MatchIdx(o, api, n) ==
  LET dims == Entry(o, n).dims IN
  IF Matches(o, api, n, dims[1]) THEN 1
  ELSE LET M == {i \in DOMAIN dims : Matches(o, api, n, dims[i])}
       IN IF M = {} THEN 0 ELSE CHOOSE i \in M : \A j \in M : i <= j
(* name -> index of the combination (0: none)                             *)
MatchAll(o, api) == [n \in Variables(o) |-> MatchIdx(o, api, n)]
Dims(o, match) ==
  [n \in {m \in DOMAIN match : match[m] > 0} |->
     LET d == Entry(o, n).dims[match[n]] IN [i \in DOMAIN d |-> Upper(d[i])]]
ShapeIssues(match) == Issues("E", "shape", {n \in DOMAIN match : match[n] = 0})

-----------------------------------------------------------------------------
(* Content                                                                 *)
CaseSensitive == {"GLOBAL_DataType", "GLOBAL_SOFAConventions"}

UnitOk(test, ref) ==
  LET multi == Len(Split(ref, FALSE)) > 1
      r == Split(ref, multi)
      t == Split(test, multi)
  IN /\ Len(r) = Len(t)
     /\ \A i \in DOMAIN r : t[i] \in DOMAIN Aliases /\ Aliases[t[i]] = r[i]

ValueOk(key, x, any, ref) ==
  \/ any
  \/ x.k = "s" /\ x.v[1] \in Range(ref)
  \/ /\ x.k = "s" /\ key \notin CaseSensitive
     /\ \/ Lower(x.v[1]) \in Range(ref)
        \/ EndsWith(key, "Units") /\ Len(ref) = 1 /\ UnitOk(Lower(x.v[1]), ref[1])

Selector(key, x) == IF x.k # "s" THEN "" ELSE IF key \in CaseSensitive THEN x.v[1] ELSE Lower(x.v[1])

RuleIssues(o, api, rule) ==
  LET x == o.data[rule.key]
      value == IF ValueOk(rule.key, x, rule.any, rule.value) THEN {}
               ELSE {Iss("E", "value", rule.key)}
      general == Issues("E", "given", {d \in Range(rule.general) : ~HasAttr(o, d)})
      specific ==
        UNION {LET s == rule.specific[i] IN
          UNION ({IF ~HasAttr(o, s.deps[j].key) THEN {Iss("E", "given", s.deps[j].key)}
                  ELSE IF ValueOk(s.deps[j].key, o.data[s.deps[j].key], s.deps[j].any, s.deps[j].ref)
                       THEN {} ELSE {Iss("E", "value", s.deps[j].key)}
                  : j \in DOMAIN s.deps}
                 \cup {IF api[s.dims[j].dim] \in Range(s.dims[j].sizes) THEN {}
                       ELSE {Iss("E", "dimension", s.dims[j].dim)} : j \in DOMAIN s.dims})
          : i \in {k \in DOMAIN rule.specific :
                     x.k = "s" /\ rule.specific[k].val = Selector(rule.key, x)}}
  IN value \cup general \cup specific
ContentIssues(o, api) ==
  UNION {RuleIssues(o, api, Rules[i]) : i \in {j \in DOMAIN Rules : Rules[j].key \in DOMAIN o.data}}

UnitKeys(o) == {n \in DOMAIN o.data : Fact(n).units}
WriteIssues(o) ==
  Issues("E", "lower", {n \in UnitKeys(o) : o.data[n].k = "s" /\ HasUpper(o.data[n].v[1])})

-----------------------------------------------------------------------------
(* Verification: r.early - only missing data and types could be checked,  *)
(* r.vague - the outcome is not specified, r.api/r.dims - sizes of the     *)
(* dimensions and the dimensions of the variables.                         *)
Outcome(exc, o, issues) ==
  [exc |-> exc, o |-> o, issues |-> issues, early |-> TRUE, vague |-> FALSE,
   api |-> Empty, dims |-> Empty, protany |-> FALSE]

Deprecation(o, mode) ==
  IF ClaimedName(o) \in DeprecatedNames
    THEN {Iss(IF mode = "write" THEN "E" ELSE "W", "deprecated", "GLOBAL_SOFAConventions")}
    ELSE {}
Preliminary(o) ==
  IF Convs[o.conv].stable THEN {} ELSE {Iss("W", "preliminary", "GLOBAL_SOFAConventionsVersion")}

HasErrors(issues) == \E i \in issues : i.s = "E"

(* all outcomes that are possible                                          *)
Verifications(o0, mode, handling) ==
  IF ~CanReset(o0)
    THEN {[Outcome(ResetExc(o0), o0, {}) EXCEPT !.protany = TRUE]}
  ELSE
  LET r == Reset(o0)
      names == DOMAIN r.data
      miss == MandatoryNames[r.conv] \ names
      unknown == {n \in names : ~IsEntry(r, n)}
      o == IF handling = "raise" \/ miss = {} THEN r
           ELSE [AddDefaults(r, miss) EXCEPT !.prot = TRUE]
      missI == IF handling = "raise" THEN Issues("E", "missing", miss) ELSE {}
      missW == IF handling = "raise" THEN {} ELSE Issues("W", "missing", miss)
      types == Issues("E", "type", {n \in names \ unknown : ~TypeOk(Entry(r, n).t, r.data[n])})
  IN
  IF unknown # {}
    THEN {[Outcome("any", o, {}) EXCEPT !.vague = TRUE, !.protany = TRUE]}
  ELSE IF missI \cup types # {}
    THEN IF handling = "ignore"
         THEN {[Outcome("any", o, {}) EXCEPT !.vague = TRUE, !.protany = TRUE]}
         ELSE {[Outcome(IF handling = "raise" THEN "ValueError" ELSE "", o, missI \cup missW \cup types)
                  EXCEPT !.protany = TRUE]}
  ELSE IF Undefined(o)
    THEN {[Outcome("any", o, {}) EXCEPT !.vague = TRUE, !.protany = TRUE]}
  ELSE
  LET fixed == missW \cup NameIssues(o, names) \cup (IF mode = "write" THEN WriteIssues(o) ELSE {})
               \cup Deprecation(o, mode) \cup Preliminary(o)
      With(api) ==
        LET match == MatchAll(o, api)
            all == fixed \cup ShapeIssues(match) \cup ContentIssues(o, api)
        IN [exc |-> IF handling = "raise" /\ HasErrors(all) THEN "ValueError" ELSE "",
            o |-> [o EXCEPT !.prot = TRUE], issues |-> all, early |-> FALSE, vague |-> FALSE,
            api |-> api, dims |-> Dims(o, match), protany |-> FALSE]
  IN {With(api) : api \in ApiChoices(o)}

-----------------------------------------------------------------------------
(* What the text of an issue has to tell, for all issues [c, n]            *)
RECURSIVE Join(_, _)
Join(q, with) ==
  IF Len(q) = 0 THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o with \o Join(Tail(q), with)
ShapeText(sh) ==
  "(" \o Join([i \in DOMAIN sh |-> ToString(sh[i])], ", ") \o (IF Len(sh) = 1 THEN ",)" ELSE ")")
SizesText(api, dim) ==
  "(" \o Join([i \in DOMAIN dim |-> Upper(dim[i]) \o "=" \o ToString(api[Upper(dim[i])])], ", ") \o ")"
Tells(c, n, has) == [c |-> c, n |-> n, has |-> has]
Given(x) == IF x.k = "s" THEN {x.v[1]} ELSE {}
RuleTexts(o, api, rule) ==
  LET x == o.data[rule.key]
      value == IF ValueOk(rule.key, x, rule.any, rule.value) THEN {}
               ELSE {Tells("value", rule.key, Given(x) \cup {Join(rule.value, ", ")})}
      general == {Tells("given", d, {rule.key}) : d \in {d \in Range(rule.general) : ~HasAttr(o, d)}}
      specific ==
        UNION {LET s == rule.specific[i]
                   why == {rule.key, Selector(rule.key, x)} IN
          UNION ({IF ~HasAttr(o, s.deps[j].key) THEN {Tells("given", s.deps[j].key, why)}
                  ELSE IF ValueOk(s.deps[j].key, o.data[s.deps[j].key], s.deps[j].any, s.deps[j].ref)
                       THEN {}
                       ELSE {Tells("value", s.deps[j].key, why \cup Given(o.data[s.deps[j].key])
                                                               \cup {Join(s.deps[j].ref, ", ")})}
                  : j \in DOMAIN s.deps}
                 \cup {IF api[s.dims[j].dim] \in Range(s.dims[j].sizes) THEN {}
                       ELSE {Tells("dimension", s.dims[j].dim,
                                   why \cup {ToString(api[s.dims[j].dim]), s.dims[j].text})}
                       : j \in DOMAIN s.dims})
          : i \in {k \in DOMAIN rule.specific :
                     x.k = "s" /\ rule.specific[k].val = Selector(rule.key, x)}}
  IN value \cup general \cup specific
ReportTexts(o, r, mode) ==
  {Tells("shape", n, {ShapeText(o.data[n].sh),
                      Join([d \in DOMAIN Entry(o, n).dims |-> SizesText(r.api, Entry(o, n).dims[d])], ", ")})
     : n \in {i.n : i \in {j \in r.issues : j.c = "shape"}}}
  \cup UNION {RuleTexts(o, r.api, Rules[i]) : i \in {j \in DOMAIN Rules : Rules[j].key \in DOMAIN o.data}}
  \cup {Tells("lower", i.n, {o.data[i.n].v[1]}) : i \in {j \in r.issues : j.c = "lower"}}
  \cup {Tells("deprecated", i.n, {ClaimedName(o), DB.deprecations[ClaimedName(o)]})
          : i \in {j \in r.issues : j.c = "deprecated"}}
  \cup {Tells("preliminary", i.n, {ClaimedVersion(o)}) : i \in {j \in r.issues : j.c = "preliminary"}}

Verify(o, mode, handling) ==
  LET R == Verifications(o, mode, handling)
      r == CHOOSE r \in R : TRUE
  IN IF \A q \in R : q.exc = r.exc THEN r ELSE [r EXCEPT !.vague = TRUE]
Valid(o, mode) == LET r == Verify(o, mode, "raise") IN r.exc = ""
=============================================================================
