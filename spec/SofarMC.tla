------------------------------ MODULE SofarMC -------------------------------
(***************************************************************************)
(* All histories of calls over a small data base (db/mini.py), up to Depth *)
(* calls.  The invariants say what the properties demand, independent of   *)
(* the operators that predict the outcome of single calls.                 *)
(***************************************************************************)
EXTENDS Sofar

CONSTANTS Depth,      \* number of calls
          Part        \* names of groups of calls

VARIABLES clean,      \* objects that were never unprotected by the user
          made,       \* file name -> object that was written to it
          last        \* the last call and its result
vars == <<objs, files, clean, made, last>>

-----------------------------------------------------------------------------
(* The calls                                                               *)
Arr(t, sh, v) == [k |-> "a", t |-> t, sh |-> sh, v |-> v,
                  w |-> IF t = "U" THEN [i \in DOMAIN v |-> Len(v[i])] ELSE <<>>]
Lst(t, sh, v) == [Arr(t, sh, v) EXCEPT !.k = "l"]
C(op, id, a) == [op |-> op, id |-> id, a |-> a]
New_(id, conv, version, mandatory) ==
  C("new", id, [conv |-> conv, str |-> TRUE, version |-> version, mandatory |-> mandatory, verify |-> "auto"])
Set_(id, n, x) == C("set", id, [n |-> n, x |-> x])
Del_(id, n) == C("del", id, [n |-> n])
Add_(id, n, x, t, dims) == C("add", id, [n |-> n, x |-> x, t |-> t, dims |-> dims])

News(id) == <<New_(id, "Mini", "1.0", FALSE), New_(id, "Mini", "latest", TRUE),
              New_(id, "Old", "latest", FALSE), New_(id, "Prelim", "0.3", FALSE),
              New_(id, "Mini", "3.0", FALSE)>>
Sets(id) ==
  <<Set_(id, "GLOBAL_Title", Str("A title")),
    Set_(id, "GLOBAL_Title", Num("1")),
    Set_(id, "GLOBAL_DataType", Str("TF")),
    Set_(id, "GLOBAL_SOFAConventionsVersion", Str("2.0")),
    Set_(id, "Data_Rate", Num("44100")),
    Set_(id, "ListenerPosition", Lst("i", <<2, 3>>, <<"1", "2", "3", "4", "5", "6">>)),
    Set_(id, "ListenerPosition", Lst("i", <<2>>, <<"1", "2">>)),
    Set_(id, "ListenerPosition_Type", Str("Spherical")),
    Set_(id, "ListenerPosition_Units", Str("degree degree, m")),
    Set_(id, "ListenerPosition_Units", Str("Metres")),
    Set_(id, "Data_IR", Arr("i", <<2, 1, 2>>, <<"1", "2", "3", "4">>)),
    Set_(id, "SourceName", Lst("U", <<2>>, <<"a", "bc">>)),
    Set_(id, "Junk", Num("2")),
    Set_(id, "Thing", Num("3"))>>
Dels(id) ==
  <<Del_(id, "GLOBAL_Title"), Del_(id, "GLOBAL_Comment"), Del_(id, "ListenerPosition_Units"),
    Del_(id, "ListenerPosition"), Del_(id, "SourceName"), Del_(id, "Data_Rate"),
    Del_(id, "Data_Rate_Units"), Del_(id, "Thing"), Del_(id, "Thing_Units"), Del_(id, "GLOBAL_Thing")>>
Protects(id) == <<C("protect", id, [bool |-> TRUE, v |-> FALSE]), C("protect", id, [bool |-> TRUE, v |-> TRUE]),
                  C("protect", id, [bool |-> FALSE, v |-> FALSE])>>
Adds(id) ==
  <<Add_(id, "Thing", Lst("i", <<2>>, <<"1", "2">>), "double", "M"),
    Add_(id, "Thing", Lst("i", <<1, 2>>, <<"1", "2">>), "double", "It"),
    Add_(id, "Thing", Str("text"), "string", "IS"),
    Add_(id, "Thing_Units", Str("Metre"), "attribute", "none"),
    Add_(id, "Data_IR_Note", Str("note"), "attribute", "none"),
    Add_(id, "GLOBAL_Thing", Str("thing"), "attribute", "none"),
    Add_(id, "GLOBAL_Comment", Str("again"), "attribute", "none"),
    Add_(id, "SourceName", Num("4"), "double", "I"),
    Add_(id, "A_B", Num("4"), "double", "I"),
    Add_(id, "Thing", Num("4"), "double", "none")>>
Missings(id) == <<C("addmissing", id, [m |-> TRUE, o |-> TRUE, verbose |-> TRUE]),
                  C("addmissing", id, [m |-> TRUE, o |-> FALSE, verbose |-> FALSE]),
                  C("addmissing", id, [m |-> FALSE, o |-> TRUE, verbose |-> TRUE])>>
Verify_(id, mode, handling) == C("verify", id, [mode |-> mode, handling |-> handling])
Verifys(id) == <<Verify_(id, "write", "raise"), Verify_(id, "read", "raise"),
                 Verify_(id, "write", "return"), Verify_(id, "read", "return"),
                 Verify_(id, "write", "ignore"), Verify_(id, "read", "print")>>
Files_(id) == <<C("write", id, [path |-> "p"]), C("read", id, [path |-> "p", verify |-> "auto"]),
                C("read", id, [path |-> "p.sofa", verify |-> "false"]), C("readnc", id, [path |-> "p"])>>
Upgrades_(id) == <<C("upgrade", id, [target |-> "none", verify |-> "auto"]),
                   C("upgrade", id, [target |-> "Mini_2.0", verify |-> "auto"]),
                   C("upgrade", id, [target |-> "Mini_1.0", verify |-> "false"])>>
Copies(id, src) == <<C("copy", id, [src |-> src])>>
Queries(id) == <<C("dim", id, [d |-> "M"]), C("dim", id, [d |-> "S"]), C("dim", id, [d |-> "X"]), C("dims", id, [x |-> ""]),
                 C("inspect", id, [x |-> ""]), C("info", id, [what |-> "all"])>>
Streams == <<C("stream", "a", [path |-> "p"]), C("streamlist", "a", [path |-> "p"])>>
Equals_(i, j) == <<C("equals", i, [b |-> j, exclude |-> "none"]), C("equals", i, [b |-> j, exclude |-> "DATE"])>>

If(name, s) == IF name \in Part THEN s ELSE <<>>
Group(id, src) ==
  If("edit", Sets(id) \o Dels(id) \o Protects(id)) \o If("add", Adds(id) \o Missings(id))
  \o If("verify", Verifys(id)) \o If("files", Files_(id)) \o If("upgrade", Upgrades_(id))
  \o If("copy", Copies(id, src)) \o If("query", Queries(id))
Calls == News("a") \o Group("a", "b")
         \o If("two", Group("b", "a")) \o If("query", Streams \o Equals_("a", "b") \o Equals_("b", "a"))

-----------------------------------------------------------------------------
Start(c) == IF c.op = "new" THEN c.id \notin DOMAIN objs ELSE TRUE

CleanAfter(c, r) ==
  IF c.op \in {"stream", "streamlist"} THEN clean
  ELSE IF r.gone THEN clean \ {c.id}
  ELSE CASE c.op = "new" -> clean \cup {c.id}
         [] c.op \in {"read", "readnc"} -> clean \ {c.id}
         [] c.op = "copy" -> IF c.a.src \in clean THEN clean \cup {c.id} ELSE clean \ {c.id}
         [] c.op = "protect" -> IF c.a.bool /\ ~c.a.v THEN clean \ {c.id} ELSE clean
         [] OTHER -> clean

Init == objs = Empty /\ files = Empty /\ clean = {} /\ made = Empty /\ last = [k |-> 0, exc |-> "", id |-> ""]
Call(k) ==
  LET c == Calls[k] IN
  /\ Possible(c) /\ Start(c)
  /\ LET r == Result_(c) IN
     /\ ~r.vague
     /\ objs' = Objects(c, r)
     /\ files' = r.f
     /\ clean' = CleanAfter(c, r)
     /\ made' = IF c.op = "write" /\ r.exc = "" THEN (FileName(c.a.path) :> objs[c.id]) @@ made ELSE made
     /\ last' = [k |-> k, exc |-> r.exc, id |-> c.id]
Next == TLCGet("level") <= Depth /\ \E k \in DOMAIN Calls : Call(k)
Spec == Init /\ [][Next]_vars
View == <<objs, files, clean, made>>

-----------------------------------------------------------------------------
(* Invariants                                                              *)
Ids == DOMAIN objs
LastOp == IF last.k = 0 THEN "" ELSE Calls[last.k].op

(* C01, C04: objects that the user never unprotected                       *)
Intact ==
  \A i \in clean : LET o == objs[i] IN
    /\ o.prot
    /\ MandatoryNames[o.conv] \subseteq DOMAIN o.data
    /\ \A n \in DOMAIN o.data : IsEntry(o, n)
    /\ \A n \in DOMAIN o.data : n \in DOMAIN Entries(o.conv) /\ Entries(o.conv)[n].r
                                  => o.data[n].v = Entries(o.conv)[n].def.v
    /\ o.conv = o.rocv /\ CanReset(o) /\ Reset(o).conv = o.conv
(* C03: custom entries are contained and are no entries of the convention  *)
Custom ==
  \A i \in Ids : LET o == objs[i] IN
    /\ DOMAIN o.cust \subseteq DOMAIN o.data
    /\ DOMAIN o.cust \cap DOMAIN Entries(o.conv) = {}
(* rejected calls change nothing (C01, C03, C13, C19), other objects and   *)
(* files never change (C21)                                                *)
Rejected ==
  [][/\ \A i \in DOMAIN objs : i # last'.id => i \in DOMAIN objs' /\ objs'[i] = objs[i]
     /\ \A i \in DOMAIN objs' : i # last'.id => i \in DOMAIN objs
     /\ LET c == Calls[last'.k] IN
        /\ (files' # files => c.op = "write" /\ last'.exc = "")
        /\ (last'.exc # "" /\ c.op \in {"set", "del", "add", "protect", "addmissing"} => objs' = objs)
        /\ (last'.exc # "" /\ c.op = "write" => objs'[c.id].data = objs[c.id].data)
        /\ (c.op \in {"verify", "write", "dim", "dims", "inspect", "info"} =>
              \A n \in DOMAIN objs[c.id].data : objs'[c.id].data[n] = objs[c.id].data[n])
        /\ (c.op \in {"addmissing", "copy", "equals"} /\ c.id \in DOMAIN objs /\ c.op # "copy" =>
              \A n \in DOMAIN objs[c.id].data : objs'[c.id].data[n] = objs[c.id].data[n])
        /\ (c.op = "set" /\ last'.exc = "" =>
              Remove(objs'[c.id].data, {c.a.n}) = Remove(objs[c.id].data, {c.a.n}))
        /\ (c.op = "del" /\ last'.exc = "" => objs'[c.id].data = Remove(objs[c.id].data, {c.a.n}))
        /\ (c.op = "add" /\ last'.exc = "" =>
              c.a.n \notin DOMAIN objs[c.id].data /\ Remove(objs'[c.id].data, {c.a.n}) = objs[c.id].data)
        /\ (c.op = "copy" => objs'[c.id] = objs[c.a.src])
        /\ (c.op # "protect" /\ c.id \in DOMAIN objs /\ c.id \in DOMAIN objs' /\ c.op \notin Creates /\ objs[c.id].prot
              => objs'[c.id].prot)]_vars

(* C04: missing data                                                       *)
Complete ==
  \A i \in Ids : LET r == DoAddMissing(objs[i], TRUE, TRUE)
                     m == DoAddMissing(objs[i], TRUE, FALSE)
                     k == DoAddMissing(objs[i], FALSE, TRUE) IN
    r.exc = "" =>
      /\ DOMAIN Entries(r.o.conv) \subseteq DOMAIN r.o.data
      /\ DoAddMissing(r.o, TRUE, TRUE).added = {}
      /\ m.added \cup k.added = r.added /\ m.added \cap k.added = {}
      /\ \A n \in DOMAIN objs[i].data : r.o.data[n] = objs[i].data[n]
(* C06, C11, C12: modes and handlers agree                                 *)
Verdicts ==
  \A i \in Ids : \A mode \in {"read", "write"} :
    LET o == objs[i]
        x == Verify(o, mode, "raise")
        r == Verify(o, mode, "return")
        again == Verify(r.o, mode, "return")
        w == Verify(o, "write", "return")
        Bad(q) == {j \in q.issues : j.s = "E"}
        NotMissing(q) == {j \in q.issues : j.c # "missing"}
    IN (~x.vague /\ ~r.vague /\ CanReset(o)) =>
         /\ r.exc = ""
         /\ (~x.early =>
               \A n \in DOMAIN o.data : TypeOk(Entry(Reset(o), n).t, o.data[n]))
         /\ (x.exc = "ValueError") <=> (Bad(x) # {})
         /\ NotMissing(again) = NotMissing(r) \/ r.early
         /\ {j.n : j \in {q \in x.issues : q.c = "missing"}} = MandatoryNames[Reset(o).conv] \ DOMAIN o.data
         /\ (x.exc = "" => NotMissing(r) = x.issues)
         /\ (mode = "read" /\ ~r.early => \A j \in Bad(r) : j \in Bad(w))
         /\ ((\E j \in r.issues : j.c = "preliminary") <=> (~Convs[r.o.conv].stable /\ ~r.early))
(* C02: new objects are valid unless the convention is deprecated          *)
Fresh ==
  (LastOp = "new" /\ last.exc = "") =>
    LET o == objs[last.id] r == Verify(o, "read", "raise") w == Verify(o, "write", "raise") IN
    /\ r.exc = "" /\ {i \in r.issues : i.s = "E"} = {}
    /\ (w.exc # "" <=> Convs[o.conv].deprecated)
    /\ \A n \in DOMAIN Entries(o.conv) : Entries(o.conv)[n].m => n \in DOMAIN o.data
(* C13 to C16, C25: files                                                  *)
Readable ==
  \A p \in DOMAIN files :
    LET r == DoRead(files, p, "true")
        n == DoReadNC(files, p)
        f == files[p]
        again == DoWrite(r.o, 4)
    IN /\ p \in DOMAIN made
       /\ r.exc = ""
       /\ DOMAIN r.o.data = DOMAIN made[p].data
       /\ \A m \in DOMAIN r.o.data : SameWritten(r.o.data[m], made[p].data[m])
       /\ DOMAIN r.o.cust = DOMAIN Reset(made[p]).cust
       /\ DOMAIN n.o.data = DOMAIN r.o.data /\ \A m \in DOMAIN n.o.data : n.o.data[m] = r.o.data[m]
       /\ again.exc = "" /\ FileOf(r.o, again) = f
       /\ \A d \in DOMAIN f.dims : \A q \in DimsOutcomes(r.o) : q.api[d] = f.dims[d]
       /\ \A v \in DOMAIN f.v : Len(f.v[v].x) = Size(f.v[v].sh)
       /\ Equal(r.o, made[p], "none", {}) /\ Equal(made[p], r.o, "none", {})
       (* C18 *)
       /\ \A m \in DOMAIN r.o.data :
            LET s == StreamValue(f, m) IN s.k # "exc" /\ s.x = r.o.data[m].v
       /\ StreamValue(f, "Nothing").k = "exc"
(* C19: upgrades                                                           *)
Upgradable ==
  \A i \in Ids : \A t \in ConvIds :
    LET o == objs[i] r == DoUpgrade(o, t, "false") IN
    (CanReset(o) /\ Claims(o) /\ "GLOBAL_Version" \in DOMAIN o.data) =>
      /\ (r.done <=> t \in Targets(Reset(o)))
      /\ (~r.done => r.o.data = o.data)
      /\ (r.done =>
            LET rule == UpgradeRule(Reset(o))
                src == {m.src : m \in Range(rule.move)}
                dst == {m.dst : m \in Range(rule.move)} IN
            /\ ClaimedName(r.o) = Convs[t].name /\ ClaimedVersion(r.o) = Convs[t].version
            /\ MandatoryNames[t] \subseteq DOMAIN r.o.data
            /\ r.o.prot
            /\ DOMAIN r.o.data \cap (src \ dst) \subseteq MandatoryNames[t]
            /\ \A n \in (DOMAIN o.data) \ (src \cup dst \cup Range(rule.remove) \cup Keys) :
                 n \in DOMAIN r.o.data /\ r.o.data[n] = o.data[n]
            /\ \A m \in Range(rule.move) : m.src \in DOMAIN o.data =>
                 /\ Len(r.o.data[m.dst].v) = Len(o.data[m.src].v)
                 /\ Range(r.o.data[m.dst].v) = Range(o.data[m.src].v)
            /\ DOMAIN o.cust \ (DOMAIN Entries(t) \cup Range(rule.remove) \cup src)
                 \subseteq DOMAIN r.o.cust
            /\ ~DoUpgrade(r.o, t, "false").done)
(* C20: comparison                                                         *)
Comparison ==
  \A i, j \in Ids : \A x \in {"none", "GLOBAL", "ATTR", "DATE"} :
    LET a == objs[i] b == objs[j] IN
    (Comparable(a) /\ Comparable(b)) =>
      /\ (i = j => Equal(a, b, x, {}))
      /\ (x \in {"GLOBAL", "DATE"} \/ a.cust = b.cust => Equal(a, b, x, {}) = Equal(b, a, x, {}))
      /\ (Equal(a, b, "none", {}) => Equal(a, b, x, {}))
=============================================================================
