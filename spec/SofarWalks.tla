----------------------------- MODULE SofarWalks -----------------------------
(***************************************************************************)
(* Long random behaviours over the complete data base, for replaying them  *)
(* on the library.  The next call is chosen with regard to the state of    *)
(* the specification (entries that exist or are missing, sizes of the      *)
(* dimensions, files that were written, targets of upgrades).              *)
(***************************************************************************)
EXTENDS Sofar

CONSTANTS Length,     \* number of calls
          Bias        \* kinds of calls that are chosen more often

VARIABLE hist
wvars == <<objs, files, hist>>

R(S) == RandomElement(S)
Pick(s) == s[R(1..Len(s))]
C(op, id, a) == [op |-> op, id |-> id, a |-> a]
Ids == {"a", "b", "c"}
Paths == {"p", "q.sofa", "r.s"}
Alive == DOMAIN objs
SomeId == IF Alive = {} THEN "a" ELSE R(Alive)

-----------------------------------------------------------------------------
(* Values                                                                  *)
Texts == <<"", "text", "cartesian", "spherical", "Spherical", "metre", "Metre", "degree, degree, metre",
           "degrees degrees m", "hertz", "FIR", "TF", "free field", "reverberant", "shoebox", "two words",
           "samples", "kelvin", "second, metre", "spherical harmonics">>
Digits == <<"0", "1", "2", "3", "17", "48000", "0.5", "-1.25", "1e-07">>
Sizes == <<1, 1, 1, 2, 2, 3, 4>>
Elements(sh, t) == [i \in 1..Size(sh) |-> IF t = "U" THEN Pick(<<"", "a", "bc", "def", "~0003a9">>)
                                          ELSE IF t = "i" THEN Pick(<<"0", "1", "2", "3", "17">>)
                                          ELSE Pick(Digits)]
Arr(k, t, sh) ==
  LET v == Elements(sh, t) IN
  [k |-> k, t |-> t, sh |-> sh, v |-> v,
   w |-> IF t = "U" THEN [i \in DOMAIN v |-> IF v[i] = "~0003a9" THEN 2 ELSE Len(v[i])] ELSE <<>>]
RandomShape == LET n == Pick(<<1, 2, 2, 3, 4>>) IN [i \in 1..n |-> Pick(Sizes)]

(* sizes of the dimensions of the object, if they can be determined        *)
ApiOf(o) == IF Undefined(o) THEN Empty ELSE CHOOSE a \in ApiChoices(o) : TRUE
(* a shape that the entry may have if M has the size m                     *)
ShapeFor(o, n, m) ==
  LET d == Pick(Entry(o, n).dims)
      api == ApiOf(o)
      One(c) == IF Upper(c) = "M" THEN m ELSE IF Upper(c) \in DOMAIN api THEN api[Upper(c)] ELSE 2
      full == [i \in DOMAIN d |-> One(d[i])]
  IN IF Entry(o, n).t = "string" THEN SubSeq(full, 1, Len(full) - 1) ELSE full
SizeM(o) == LET api == ApiOf(o) IN IF "M" \in DOMAIN api THEN api["M"] ELSE 1
Numbers(o) == {n \in DOMAIN o.data : IsEntry(o, n) /\ Entry(o, n).t = "double"}
Strings(o) == {n \in DOMAIN o.data : IsEntry(o, n) /\ Entry(o, n).t = "string"}
Attributes(o) == {n \in DOMAIN o.data : IsEntry(o, n) /\ Entry(o, n).t = "attribute"}
AnyValue == LET k == R(1..6) IN
  CASE k = 1 -> Str(Pick(Texts))
    [] k = 2 -> Num(Pick(<<"0", "1", "2", "7">>))
    [] k = 3 -> Arr("l", "i", RandomShape)
    [] k = 4 -> Arr("a", "f", RandomShape)
    [] k = 5 -> Arr("l", "U", <<R(1..3)>>)
    [] OTHER -> Arr("a", "i", RandomShape)

-----------------------------------------------------------------------------
(* Calls                                                                   *)
Set_(i, n, x) == C("set", i, [n |-> n, x |-> x])
SomeSet(i) ==
  LET o == objs[i] k == R(1..10) m == SizeM(o) IN
  IF k <= 2 /\ Numbers(o) # {} THEN LET n == R(Numbers(o)) IN Set_(i, n, Arr(Pick(<<"a", "l">>), Pick(<<"i", "f">>), ShapeFor(o, n, m)))
  ELSE IF k = 3 /\ Numbers(o) # {} THEN LET n == R(Numbers(o)) IN Set_(i, n, Arr("a", "f", ShapeFor(o, n, Pick(<<1, 2, 3>>))))
  ELSE IF k = 4 /\ Strings(o) # {} THEN LET n == R(Strings(o)) IN Set_(i, n, Arr(Pick(<<"a", "l">>), "U", ShapeFor(o, n, m)))
  ELSE IF k <= 6 THEN Set_(i, R(Attributes(o) \cup {"GLOBAL_Title"}), Str(Pick(Texts)))
  ELSE IF k = 7 THEN Set_(i, R(DOMAIN Entries(o.conv) \cup DOMAIN o.data \cup {"Unknown"}), AnyValue)
  ELSE IF k = 8 /\ DOMAIN o.cust # {} THEN Set_(i, R(DOMAIN o.cust), AnyValue)
  ELSE IF k = 9 /\ o.conv # "" THEN \* give an entry its default again
    LET n == R(DOMAIN Entries(o.conv)) IN Set_(i, n, Norm(Entries(o.conv)[n].def))
  ELSE Set_(i, Pick(<<"Unknown", "GLOBAL_Unknown", "Source_Unknown">>), AnyValue)
SomeDel(i) ==
  LET o == objs[i]
      optional == {n \in DOMAIN o.data : IsEntry(o, n) /\ ~Entry(o, n).m}
  IN C("del", i, [n |-> IF optional # {} /\ R(1..3) # 1 THEN R(optional) ELSE R(DOMAIN o.data \cup {"Unknown"})])
Add_(i, n, x, t, dims) == C("add", i, [n |-> n, x |-> x, t |-> t, dims |-> dims])
SomeAdd(i) ==
  LET o == objs[i] k == R(1..6) m == SizeM(o)
      missing == DOMAIN Entries(o.conv) \ DOMAIN o.data
      vars == {n \in DOMAIN o.data : IsEntry(o, n) /\ Entry(o, n).t # "attribute"}
  IN CASE k = 1 -> Add_(i, Pick(<<"Own", "Other">>), Arr("a", "f", <<m, 3>>), "double", Pick(<<"MC", "mc">>))
       [] k = 2 -> Add_(i, Pick(<<"Own", "Other">>), Arr("l", "U", <<m>>), "string", "MS")
       [] k = 3 -> Add_(i, Pick(<<"Own", "Other">>), Arr("l", "i", <<1, R(2..4)>>), "double", Pick(<<"It", "IQ", "Iq">>))
       [] k = 4 -> Add_(i, (IF vars = {} THEN "None" ELSE R(vars)) \o "_" \o Pick(<<"Units", "Note", "Type">>),
                        Str(Pick(Texts)), "attribute", "none")
       [] k = 5 -> Add_(i, Pick(<<"GLOBAL_Own", "GLOBAL_Other", "GLOBAL_Title">>), Str(Pick(Texts)), "attribute", "none")
       [] OTHER -> IF missing = {} THEN Add_(i, "Own", Num("1"), "double", "I")
                   ELSE LET n == R(missing) e == Entries(o.conv)[n] IN
                        IF e.t = "attribute" THEN Add_(i, n, Str(Pick(Texts)), "attribute", "none")
                        ELSE Add_(i, n, Norm(e.def), e.t, Pick(<<"I", "M", "IC">>))
Convention == LET c == R(ConvIds) IN Convs[c]
SomeNew == LET c == Convention IN
  C("new", R(Ids), [conv |-> c.name, str |-> TRUE, version |-> Pick(<<c.version, c.version, "latest">>),
                    mandatory |-> R({TRUE, FALSE}), verify |-> Pick(<<"auto", "auto", "false">>)])
SomeVerify(i) == C("verify", i, [mode |-> Pick(<<"write", "read">>),
                                 handling |-> Pick(<<"raise", "print", "return", "ignore">>)])
SomeFile == IF DOMAIN files = {} THEN Pick(<<"p", "q">>) ELSE R(DOMAIN files)
SomeUpgrade(i) ==
  LET o == objs[i] t == IF CanReset(o) THEN Targets(Reset(o)) ELSE {} IN
  C("upgrade", i, [target |-> IF t = {} \/ R(1..4) = 1 THEN "none" ELSE R(t),
                   verify |-> Pick(<<"auto", "false", "true">>)])
Kinds == <<"set", "set", "set", "del", "del", "add", "add", "addmissing", "verify", "copy", "write", "read", "readnc",
           "upgrade", "protect", "dim", "dims", "inspect", "info", "equals", "stream", "new", "repair">>
NoBias == <<>>
C01Bias == <<"set", "del", "protect", "upgrade", "read">>
C03Bias == <<"add", "add", "del", "copy", "write", "read">>
C04Bias == <<"addmissing", "addmissing", "del", "del", "upgrade">>
C12Bias == <<"verify", "verify", "verify", "verify", "verify", "verify", "verify", "verify">>
C13Bias == <<"write", "write", "write", "write", "set", "repair">>
C15Bias == <<"repair", "write", "write", "read", "read", "add">>
C17Bias == <<"readnc", "readnc", "write", "write", "repair">>
C18Bias == <<"write", "write", "stream", "stream", "add">>
C19Bias == <<"upgrade", "upgrade", "upgrade", "upgrade", "upgrade", "upgrade", "new">>
C20Bias == <<"equals", "equals", "equals", "equals", "equals", "equals", "copy">>
C21Bias == <<"copy", "copy", "add", "upgrade", "equals">>
C24Bias == <<"inspect", "inspect", "info", "info", "repair">>
C25Bias == <<"dim", "dim", "dims", "dims", "set">>
C27Bias == <<"add", "add", "read", "write", "upgrade", "upgrade", "del">>
RandomCall ==
  LET k0 == Pick(Kinds \o Bias) i == SomeId
      k == IF k0 \in {"read", "readnc", "stream"} /\ DOMAIN files = {} /\ R(1..8) # 1 THEN "write" ELSE k0 IN
  IF Alive = {} \/ (Cardinality(Alive) = 1 /\ R(1..4) = 1) THEN SomeNew
  ELSE CASE k = "set" -> SomeSet(i)
         [] k = "del" -> SomeDel(i)
         [] k = "add" -> SomeAdd(i)
         [] k = "addmissing" -> C("addmissing", i, [m |-> R({TRUE, FALSE}), o |-> R({TRUE, FALSE}), verbose |-> R({TRUE, FALSE})])
         [] k = "repair" -> C("addmissing", i, [m |-> TRUE, o |-> FALSE, verbose |-> TRUE])
         [] k = "verify" -> SomeVerify(i)
         [] k = "copy" -> C("copy", R(Ids), [src |-> i])
         [] k = "write" -> C("write", i, [path |-> R(Paths)])
         [] k = "read" -> C("read", R(Ids), [path |-> SomeFile, verify |-> Pick(<<"auto", "auto", "true", "false">>)])
         [] k = "readnc" -> C("readnc", R(Ids), [path |-> SomeFile])
         [] k = "upgrade" -> SomeUpgrade(i)
         [] k = "protect" -> C("protect", i, [bool |-> R(1..6) # 1, v |-> R(1..3) # 1])
         [] k = "dim" -> C("dim", i, [d |-> Pick(<<"M", "R", "E", "N", "C", "I", "S", "Q", "T">>)])
         [] k = "dims" -> C("dims", i, [x |-> ""])
         [] k = "inspect" -> C("inspect", i, [x |-> ""])
         [] k = "info" -> C("info", i, [what |-> Pick(<<"all", "mandatory", "optional", "read only", "data", "Own", "GLOBAL_Title">>)])
         [] k = "equals" -> C("equals", i, [b |-> R(Alive), exclude |-> Pick(<<"none", "none", "GLOBAL", "ATTR", "DATE">>)])
         [] k = "stream" -> C("stream", "a", [path |-> SomeFile])
         [] OTHER -> SomeNew

WInit == objs = Empty /\ files = Empty /\ hist = <<>>
Stutter == UNCHANGED <<objs, files>>
WNext ==
  /\ Len(hist) < Length
  /\ \E c \in {RandomCall} :
       IF ~Possible(c) THEN Stutter /\ hist' = Append(hist, C("none", "a", [x |-> ""]))
       ELSE LET r == Result_(c) IN
            /\ hist' = Append(hist, c)
            /\ IF r.vague THEN Stutter ELSE objs' = Objects(c, r) /\ files' = r.f
WSpec == WInit /\ [][WNext]_wvars
Emit == Len(hist) = Length => PrintT(<<"WALK", ToJson(SelectSeq(hist, LAMBDA c : c.op # "none"))>>)
=============================================================================
