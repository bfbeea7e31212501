----------------------------- MODULE SofaTrace ------------------------------
(***************************************************************************)
(* Trace validation.  A trace is a sequence of recorded calls of the real  *)
(* library.  For each event the operators of the specification predict the *)
(* outcome from the current state, the names of all violated clauses are   *)
(* printed, and validation continues from the observed state.              *)
(*                                                                         *)
(* Event: [op, id, a, exc, out, ch, ctx]                                   *)
(*   id: object on which the operation was called, a: arguments            *)
(*   noise: something was printed or warned about                         *)
(*   exc: names of the class and base classes of the raised exception      *)
(*   out: other observations,                                              *)
(*   ch: objects that changed, id -> [set, del, prot]                      *)
(***************************************************************************)
EXTENDS SofaQuery, SofaStreams

Trace == ndJsonDeserialize(IOEnv.SOFA_TRACE)

VARIABLES l,      \* position in the trace
          objs,   \* id -> object
          files,  \* file name -> file
          streams \* id -> stream, see SofaStreams
vars == <<l, objs, files, streams>>

V(clause, ok) == IF ok THEN {} ELSE {clause}
Names(f, g) == {n \in DOMAIN f \cup DOMAIN g :
                  ~(n \in DOMAIN f /\ n \in DOMAIN g /\ f[n] = g[n])}

Creating == {"new", "copy", "read", "readnc"}

ExcOk(expected, e) ==
  CASE expected = "any" -> TRUE
    [] expected = "" -> e.exc = <<>>
    [] expected = "Error" -> e.exc # <<>>
    [] OTHER -> expected \in Range(e.exc)

-----------------------------------------------------------------------------
(* Observed state after the event                                          *)
Apply(data, c) == c.set @@ Remove(data, Range(c.del))
Before(e, i) == IF i \in DOMAIN objs /\ ~(e.op \in Creating /\ i = e.id) THEN objs[i].data ELSE Empty
After(e, i) == IF i \in DOMAIN e.ch THEN Apply(Before(e, i), e.ch[i]) ELSE Before(e, i)
ProtAfter(e, i) == IF i \in DOMAIN e.ch THEN e.ch[i].prot ELSE objs[i].prot
Exists2(e, i) == i \in DOMAIN e.ch \/ i \in DOMAIN objs
Observed(e, o) == [o EXCEPT !.data = After(e, e.id), !.prot = ProtAfter(e, e.id)]

(* no operation (but setting it) removes the protection                    *)
StaysProtected(e, o) == o.prot => ProtAfter(e, e.id)

(* data and protection are as predicted                                    *)
DataOk(e, o) == After(e, e.id) = o.data
ProtOk(e, o) == ProtAfter(e, e.id) = o.prot
State(e, tag, o) == V(tag \o ".data", DataOk(e, o)) \cup V(tag \o ".prot", ProtOk(e, o))

Result(v, o) == [v |-> v, o |-> o, f |-> files, diff |-> {}]
Diff(e, o) == IF e.id \in DOMAIN e.ch \/ e.id \in DOMAIN objs THEN Names(After(e, e.id), o.data) ELSE {}

-----------------------------------------------------------------------------
(* One operator for each kind of event                                     *)
SomeIssues(e) == {Iss(i.s, i.c, i.n) : i \in Range(e.out.issues)}

(* observed issues agree with the predicted ones                           *)
Match(i, j) == i.s = j.s /\ i.n = j.n /\ (i.c = j.c \/ i.c = "unknown")
IssuesOk(got, r) ==
  /\ \A i \in got : \E j \in r.issues : Match(i, j)
  /\ \A j \in r.issues : \E i \in got : Match(i, j)
IssueClasses(got, r) ==
  {i.c : i \in {x \in got : ~\E j \in r.issues : Match(x, j)}}
  \cup {j.c : j \in {x \in r.issues : ~\E i \in got : Match(i, x)}}

New(e) ==
  LET a == e.a
      known == a.conv \in ConvNames
      c == IF ~known THEN ""
           ELSE IF a.version = "latest" THEN Latest(a.conv)
           ELSE IF Exists(a.conv, a.version) THEN ConvId(a.conv, a.version) ELSE ""
      exc == IF ~a.str THEN "TypeError" ELSE IF c = "" THEN "ValueError" ELSE ""
      o == IF exc = "" THEN NewObject(c, a.mandatory) ELSE NoObject
      check == /\ ~a.mandatory
               /\ (a.verify = "true" \/ (a.verify = "auto" /\ Convs[c].stable))
      r == Verify(o, "read", "raise")
      warn == IF check THEN r.issues ELSE Preliminary(o)
      exc2 == IF exc # "" THEN exc ELSE IF check THEN r.exc ELSE ""
      data == After(e, e.id)
  IN IF e.exc # <<>> \/ exc2 # ""
       THEN Result(V("new.exc", ExcOk(exc2, e)), IF e.exc = <<>> THEN Observed(e, o) ELSE NoObject)
     ELSE Result(
       V("new.names", DOMAIN data = DOMAIN o.data)
       \cup V("new.data", \A n \in (DOMAIN data \cap DOMAIN o.data) \ Volatile : data[n] = o.data[n])
       \cup V("new.volatile", \A n \in DOMAIN data \cap Volatile : data[n].k = "s" /\ data[n].v[1] # "")
       \cup V("new.prot", ProtOk(e, o))
       \cup V("new.warn", IssuesOk(SomeIssues(e), [issues |-> warn])),
       Observed(e, o))

Set(e) ==
  LET o == objs[e.id] r == DoSet(o, e.a.n, e.a.x) IN
  Result(V("set.exc", ExcOk(r.exc, e))
         \cup V(IF r.exc = "" THEN "set.data" ELSE "set.rejected", DataOk(e, r.o))
         \cup V("set.prot", ProtOk(e, o)),
         Observed(e, o))

Del(e) ==
  LET o == objs[e.id] r == DoDel(o, e.a.n) IN
  Result(V("del.exc", ExcOk(r.exc, e))
         \cup V("del.data", r.exc = "any" \/ DataOk(e, r.o))
         \cup V("del.prot", ProtOk(e, o)),
         Observed(e, IF e.exc = <<>> THEN r.o ELSE o))

Protect(e) ==
  LET o == objs[e.id] r == DoProtect(o, e.a.bool, e.a.v) IN
  Result(V("protect.exc", ExcOk(r.exc, e)) \cup State(e, "protect", r.o), Observed(e, o))

Add(e) ==
  LET o == objs[e.id] r == DoAdd(o, e.a.n, e.a.x, e.a.t, e.a.dims) IN
  Result(V("add.exc", ExcOk(r.exc, e)) \cup State(e, "add", r.o)
         \cup V("add.told", e.exc # <<>> \/ (/\ (e.out.told <=> NewDimension(e.a.dims))
                                                /\ (e.noise <=> e.out.told))),
         Observed(e, IF e.exc = <<>> THEN r.o ELSE o))

Raw(e) ==
  LET o == objs[e.id]
      p == [o EXCEPT !.data = (e.a.n :> Norm(e.a.x)) @@ o.data, !.prot = TRUE,
                     !.cust = (e.a.n :> [t |-> e.a.t, dims |-> AddedDims(e.a.t, e.a.dims)]) @@ o.cust]
  IN Result({}, Observed(e, IF e.exc = <<>> THEN p ELSE o))

List(e) ==
  Result(V("new.list", e.exc = <<>> /\ Range(e.out.ids) = ConvIds
                       /\ Len(e.out.ids) = Cardinality(ConvIds)), NoObject)

AddMissing(e) ==
  LET o == objs[e.id]
      r == DoAddMissing(o, e.a.m, e.a.o)
      mand == {n \in r.added : Entries(r.o.conv)[n].m}
  IN Result(V("addmissing.exc", ExcOk(r.exc, e))
            \cup (IF r.exc # "" THEN V("addmissing.data", DataOk(e, o))
                  ELSE State(e, "addmissing", r.o)
                       \cup V("addmissing.report",
                              IF e.a.verbose
                                THEN /\ Range(e.out.added) = r.added
                                     /\ Len(e.out.added) = Cardinality(r.added)
                                     /\ Range(e.out.mand) = mand
                                ELSE e.out.silent)),
            Observed(e, r.o))

(* issues that were reported tell what is wrong and what is allowed        *)
TextsOk(e, r) ==
  r.early \/ e.out.lines = <<>> \/
  LET L == Range(e.out.lines) IN
  \A w \in ReportTexts(r.o, r, e.a.mode) :
    LET M == {ln \in L : ln.c = w.c /\ ln.n = w.n}
    IN M = {} \/ \E ln \in M : \A t \in w.has : Contains(ln.x, t)
VerifyClauses(e, r) ==
  LET got == SomeIssues(e)
      ignore == e.a.handling = "ignore"
  IN IF r.vague THEN V("verify.prot", StaysProtected(e, objs[e.id]))
                    \cup V("verify.ignore", (ignore /\ e.exc = <<>>) =>
                             (got = {} /\ e.out.none /\ e.out.quiet /\ e.out.nowarn))
     ELSE V("verify.exc", ExcOk(r.exc, e))
          \cup (IF ignore THEN V("verify.ignore", got = {} /\ e.out.none)
                ELSE {"verify." \o c : c \in IssueClasses(got, r)})
          \cup V("verify.text", TextsOk(e, r))
          \cup V("verify.none", IF e.a.handling = "return" THEN e.out.none <=> r.issues = {} ELSE e.out.none)
          \cup V("verify.quiet", e.a.handling = "print" \/ e.out.quiet)
          \cup V("verify.nowarn", e.a.handling = "raise" \/ e.out.nowarn)
          \cup V("verify.data", DataOk(e, r.o))
          \cup V("verify.prot", IF r.protany THEN StaysProtected(e, objs[e.id]) ELSE ProtOk(e, r.o))
DoVerify(e) ==
  LET o == objs[e.id]
      R == Verifications(o, e.a.mode, e.a.handling)
      C == {[r |-> r, v |-> VerifyClauses(e, r)] : r \in R}
      best == CHOOSE c \in C : \A d \in C : Cardinality(c.v) <= Cardinality(d.v)
      got == SomeIssues(e)
  IN [Result(best.v, Observed(e, best.r.o))
       EXCEPT !.diff = IF best.v = {} THEN {}
                       ELSE {<<i.s, i.c, i.n>> : i \in got \ best.r.issues}
                            \cup {<<"not reported", i.s, i.c, i.n>> : i \in best.r.issues \ got}]

Copy(e) ==
  LET o == objs[e.a.src] IN
  IF e.exc # <<>> THEN Result({"copy.exc"}, NoObject)
  ELSE Result(State(e, "copy", o), Observed(e, o))

Poke(e) ==
  LET o == objs[e.id]
      x == [o.data[e.a.n] EXCEPT !.v[e.a.i] = e.a.v]
      p == [o EXCEPT !.data = (e.a.n :> x) @@ o.data]
  IN Result(V("poke.data", DataOk(e, p)), Observed(e, o))

Probe(e) ==
  LET o == objs[e.id]
      known == {n \in DOMAIN o.data : IsEntry(o, n)}
  IN Result((IF ~o.prot THEN V("probe.open", e.out.ro = <<>>)
             ELSE V("probe.readonly", Range(e.out.ro) = {n \in DOMAIN o.data : ReadOnly(o, n)}))
            \cup (IF ~o.prot THEN V("probe.open", e.out.mand = <<>>)
                  ELSE V("probe.mandatory", Range(e.out.mand) \cap known = {n \in known : Mandatory(o, n)})),
            Observed(e, o))

-----------------------------------------------------------------------------
(* Files                                                                   *)
FilesAfter(e) == e.out.f.ch @@ Remove(files, Range(e.out.f.gone))

DimsOk(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A d \in DOMAIN a : a[d] = b[d] \/ (d = "S" /\ a[d] = 0 /\ b[d] \in {0, 1})
VarOk(a, b) == a.d = b.d /\ a.t = b.t /\ a.x = b.x /\ a.a = b.a /\ a.sh = b.sh
FileClauses(f, g) ==        \* expected f, observed g
  V("file.global", f.g = g.g)
  \cup V("file.dims", DimsOk(f.dims, g.dims))
  \cup V("file.variables", DOMAIN f.v = DOMAIN g.v)
  \cup UNION {V("file.var.d", f.v[n].d = g.v[n].d) \cup V("file.var.type", f.v[n].t = g.v[n].t)
              \cup V("file.var.shape", f.v[n].sh = g.v[n].sh) \cup V("file.var.values", f.v[n].x = g.v[n].x)
              \cup V("file.var.attributes", f.v[n].a = g.v[n].a) : n \in DOMAIN f.v \cap DOMAIN g.v}
FileDiff(f, g) == Names(f.g, g.g) \cup Names(f.dims, g.dims)
  \cup {n \in DOMAIN f.v \cup DOMAIN g.v : ~(n \in DOMAIN f.v /\ n \in DOMAIN g.v /\ VarOk(f.v[n], g.v[n]))}

Write(e) ==
  LET o == objs[e.id]
      r == DoWrite(o, e.a.comp)
      p == FileName(e.a.path)
      now == FilesAfter(e)
      failed == e.exc # <<>>
      frame == IF failed THEN e.out.f.ch = Empty ELSE DOMAIN e.out.f.ch \subseteq {p}
      f == FileOf(o, r)
      base == V("write.exc", r.vague \/ ExcOk(r.exc, e))
              \cup V("write.frame", frame /\ e.out.f.gone = <<>> /\ e.out.f.other = <<>> /\ ~e.out.f.broken)
              \cup V("write.object", DataOk(e, o))
              \cup V("write.prot", IF r.protany \/ r.vague \/ failed THEN StaysProtected(e, o) ELSE ProtOk(e, r.o))
              \cup V("write.outdated", failed \/ (e.out.outdated <=> Outdated(o)))
  IN [v |-> base \cup (IF failed \/ r.vague \/ r.exc # "" THEN {}
                       ELSE IF p \notin DOMAIN now THEN {"write.path"}
                       ELSE FileClauses(f, now[p])),
      o |-> Observed(e, r.o), f |-> now,
      diff |-> IF failed \/ r.vague \/ r.exc # "" \/ p \notin DOMAIN now THEN {} ELSE FileDiff(f, now[p])]

(* Writing in a process that runs out of space (kind full), that is killed *)
(* (killed, killedat), or that the user stops (stopped): the earlier       *)
(* content stays or is replaced completely                                 *)
Interrupt(e) ==
  LET o == objs[e.id]
      r == DoWrite(o, e.a.comp)
      p == FileName(e.a.path)
      now == FilesAfter(e)
      ch == DOMAIN e.out.f.ch
      known == ~(r.vague \/ r.exc # "")
      new == p \in ch /\ known /\ FileClauses(FileOf(o, r), now[p]) = {}
  IN [v |-> V("atomic.kept", ~e.out.f.broken /\ ch \subseteq {p} /\ e.out.f.gone = <<>> /\ e.out.f.other = <<>>
                             /\ (ch = {} \/ ((e.out.end # "raised" \/ e.a.kind = "stopped") /\ (new \/ ~known))))
              \cup V("atomic.done", e.out.end # "done" \/ r.vague \/ (r.exc = "" /\ (new \/ (ch = {} /\ e.out.f.same))))
              \cup V("atomic.rest", e.out.end = "killed" \/ e.a.kind = "stopped" \/ ~e.out.rest)
              \cup V("atomic.end", e.out.end # "killed" \/ e.a.kind \in {"killed", "killedat"}),
      o |-> Observed(e, o), f |-> now, diff |-> {}]

Foreign(e) == [v |-> {}, o |-> NoObject, f |-> FilesAfter(e), diff |-> {}]

ReadClauses(e, r, tag) ==
  IF r.exc = "any" \/ e.exc # <<>> \/ r.exc # "" THEN V(tag \o ".exc", ExcOk(r.exc, e))
  ELSE LET got == After(e, e.id) IN
       V(tag \o ".names", DOMAIN got = DOMAIN r.o.data)
       \cup V(tag \o ".data", \A n \in DOMAIN got \cap DOMAIN r.o.data : SameStored(got[n], r.o.data[n]))
       \cup V(tag \o ".prot", ProtAfter(e, e.id) = TRUE)
       \cup V(tag \o ".files", e.out.files)
ReadDiff(e, r) ==
  IF e.exc # <<>> \/ r.exc # "" THEN {}
  ELSE LET got == After(e, e.id) IN
       {n \in DOMAIN got \cup DOMAIN r.o.data :
          ~(n \in DOMAIN got /\ n \in DOMAIN r.o.data /\ SameStored(got[n], r.o.data[n]))}
(* custom entries of the file are listed                                   *)
ReadTold(e) ==
  LET f == files[FileName(e.a.path)]
      cv == FileConv(f)
      names == DOMAIN DataOf(f) \ DOMAIN Entries(ConvId(cv[1], cv[2]))
  IN IF e.a.verbose THEN Range(e.out.custom) = names /\ Len(e.out.custom) = Cardinality(names)
     ELSE e.out.silent
(* missing data is told once for each variable                             *)
MissingTold(e) ==
  LET names == MissingData(files[FileName(e.a.path)])
  IN Range(e.out.missing) = names /\ Len(e.out.missing) = Cardinality(names)
Read(e) ==
  LET r == DoRead(files, e.a.path, e.a.verify) IN
  [v |-> ReadClauses(e, r, "read")
         \cup (IF e.exc = <<>> /\ r.exc = ""
               THEN V("read.warn", IssuesOk(SomeIssues(e), [issues |-> r.warn]))
                    \cup V("read.told", ReadTold(e) /\ MissingTold(e)) ELSE {}),
   o |-> IF e.exc # <<>> THEN NoObject ELSE Observed(e, r.o), f |-> files, diff |-> ReadDiff(e, r)]
ReadNC(e) ==
  LET r == DoReadNC(files, e.a.path) IN
  [v |-> ReadClauses(e, r, "readnc")
         \cup (IF e.exc = <<>> /\ r.exc = ""
               THEN V("readnc.told", MissingTold(e) /\ e.noise = (e.out.missing # <<>>)) ELSE {}),
   o |-> IF e.exc # <<>> THEN NoObject ELSE Observed(e, r.o), f |-> files, diff |-> ReadDiff(e, r)]

(* streams that stay open for several calls have an id                     *)
OfStream(e) == "sid" \in DOMAIN e.a
Left(e) == OfStream(e) /\ ~IsOpen(streams, e.a.sid)
StreamFile(e) == IF OfStream(e) THEN streams[e.a.sid].path ELSE FileName(e.a.path)
Stream(e) ==
  LET p == StreamFile(e) IN
  IF Left(e) THEN Result(V("stream.left", /\ \A n \in DOMAIN e.out.vals : e.out.vals[n].k = "exc"
                                          /\ \A d \in DOMAIN e.out.dims : e.out.dims[d].exc # <<>>)
                         \cup V("stream.files", e.out.files), NoObject)
  ELSE
  IF p \notin DOMAIN files THEN Result(V("stream.missing", e.exc # <<>>), NoObject)
  ELSE
  LET f == files[p]
      Ok(n) == LET x == StreamValue(f, n) y == e.out.vals[n] IN
               IF x.k = "exc"
                 (* the bare name of a global attribute is tolerated *)
                 THEN \/ y.k = "exc" /\ x.x[1] \in Range(y.x)
                      \/ n \in DOMAIN f.g /\ y.k = "attr" /\ y.x = <<f.g[n]>>
               ELSE x.k = y.k /\ x.x = y.x /\ x.sh = y.sh
      DimOk(d) == IF d \in DOMAIN f.dims THEN e.out.dims[d].exc = <<>> /\ e.out.dims[d].v = f.dims[d]
                  ELSE "ValueError" \in Range(e.out.dims[d].exc)
  IN [Result(V("stream.exc", e.exc = <<>>)
             \cup V("stream.value", \A n \in DOMAIN e.out.vals : Ok(n))
             \cup V("stream.dim", \A d \in DOMAIN e.out.dims : DimOk(d))
             \cup V("stream.files", e.out.files), NoObject)
      EXCEPT !.diff = {n \in DOMAIN e.out.vals : ~Ok(n)}]
StreamList(e) ==
  IF Left(e) THEN Result(V("streamlist.left", e.exc # <<>>), NoObject) ELSE
  LET f == files[StreamFile(e)]
      Text(d) == e.out.texts[d] \in DimTexts(d, f.g["DataType"], f.v["ReceiverPosition"].a["Type"],
                                             f.v["EmitterPosition"].a["Type"])
  IN Result(V("streamlist", ~CanList(f) \/ (e.exc = <<>> /\ e.out.dims = f.dims))
            \cup V("streamlist.text", ~CanList(f) \/ (/\ DOMAIN e.out.texts = DOMAIN e.out.dims
                                            /\ \A d \in DOMAIN e.out.texts : Text(d))), NoObject)
StreamInspect(e) ==
  IF Left(e) THEN Result(V("streaminspect.left", e.exc # <<>>), NoObject) ELSE
  LET f == files[StreamFile(e)]
      data == DataOf(f)
      var(n) == {v \in DOMAIN f.v : FromFile(v) = n}
      Ok(n) ==
        n \in DOMAIN e.out.e /\
        LET line == e.out.e[n] x == data[n] IN
        IF var(n) = {} THEN ShowsAttr(x, line)
        ELSE LET v == f.v[CHOOSE v \in var(n) : TRUE] IN
             v.t = "S1" \/ IF Len(v.x) = 1 THEN line.dims = <<>> /\ line.x = v.x
                           ELSE ShowsArray([x EXCEPT !.sh = v.sh], v.d, line)
      titled == {"SOFAConventions", "SOFAConventionsVersion", "Version"} \subseteq DOMAIN f.g
  IN [Result(IF e.exc # <<>> THEN V("streaminspect.exc", ~titled)
             ELSE V("streaminspect.names", DOMAIN e.out.e = DOMAIN data)
                  \cup V("streaminspect.lines", \A n \in DOMAIN data : Ok(n))
                  \cup V("streaminspect.file", e.out.same), NoObject)
      EXCEPT !.diff = {n \in DOMAIN data : ~Ok(n)}]

StreamOpen(e) ==
  Result(V("stream.open", IF CanEnter(files, e.a.path) THEN e.exc = <<>> ELSE "OSError" \in Range(e.exc))
         \cup V("stream.files", e.out.files), NoObject)
StreamClose(e) ==
  Result(V("stream.close", e.exc = <<>>)
         \cup V("stream.swallowed", ~e.out.swallowed)
         \cup V("stream.held", e.out.held => Busy(Leave(streams, e.a.sid), streams[e.a.sid].path))
         \cup V("stream.files", e.out.files), NoObject)
Streams(e) ==
  CASE e.op = "sopen" -> Enter(streams, IF e.exc = <<>> THEN files ELSE Empty, e.a.sid, e.a.path)
    [] e.op = "sclose" -> Leave(streams, e.a.sid)
    [] OTHER -> streams

(* an object that was written and read again                               *)
RoundTrip(e) ==
  LET a == objs[e.a.a] b == objs[e.a.b]
      custom == DOMAIN a.cust \cap DOMAIN b.data
  IN [Result(V("rt.names", DOMAIN a.data = DOMAIN b.data)
             \cup V("rt.data", \A n \in DOMAIN a.data \cap DOMAIN b.data : SameWritten(a.data[n], b.data[n]))
             \cup V("rt.custom", /\ DOMAIN a.cust = DOMAIN b.cust
                                 /\ \A n \in custom : n \in DOMAIN e.out.b => e.out.a[n] = e.out.b[n])
             \cup V("rt.conv", a.conv = b.conv), NoObject)
      EXCEPT !.diff = {n \in DOMAIN a.data \cup DOMAIN b.data :
                         ~(n \in DOMAIN a.data /\ n \in DOMAIN b.data /\ SameWritten(a.data[n], b.data[n]))}]

-----------------------------------------------------------------------------
Moved(x, y) == x.v = y.v /\ x.t = y.t /\ LET k == MaxOf({Len(x.sh), Len(y.sh)}) IN Pad(x.sh, k) = Pad(y.sh, k)
UpgradeTold(o, e) ==
  LET p == UpgradeReport(Reset(o), e.a.target) t == e.out.told
      M(m) == [src |-> m.src, dst |-> m.dst, axis |-> m.axis, dims |-> m.dims]
  IN /\ t.uptodate = p.uptodate /\ t.norules = p.norules /\ t.invalid = p.invalid
     /\ Range(t.targets) = p.targets
     /\ Len(t.moved) = Len(p.moved) /\ \A i \in DOMAIN t.moved : M(t.moved[i]) = M(p.moved[i])
     /\ Range(t.removed) = p.removed
     /\ Range(t.added) = p.added
     /\ Range(t.messages) = p.messages
Upgrade(e) ==
  LET o == objs[e.id]
      r == DoUpgrade(o, e.a.target, e.a.verify)
      moved == IF r.done /\ CanReset(o) THEN {m.dst : m \in Range(UpgradeRule(Reset(o)).move)} ELSE {}
      got == After(e, e.id)
  IN IF ~Claims(o) THEN Result(V("upgrade.exc", e.exc # <<>>) \cup State(e, "upgrade", o), Observed(e, o))
     ELSE IF "GLOBAL_Version" \notin DOMAIN o.data
       THEN Result(V("upgrade.prot", StaysProtected(e, o)),
                   Observed(e, IF e.exc = <<>> THEN r.o ELSE IF CanReset(o) THEN Reset(o) ELSE o))
     ELSE [Result(V("upgrade.exc", ExcOk(r.exc, e))
             \cup V("upgrade.targets", e.exc # <<>> \/
                    ((e.out.none <=> r.targets = {}) /\ Range(e.out.targets) = r.targets))
             \cup V("upgrade.names", DOMAIN got = DOMAIN r.o.data)
             \cup V("upgrade.data", \A n \in (DOMAIN got \cap DOMAIN r.o.data) \ moved : got[n] = r.o.data[n])
             \cup V("upgrade.moved", \A n \in (DOMAIN got \cap DOMAIN r.o.data) \cap moved : Moved(got[n], r.o.data[n]))
             \cup V("upgrade.prot", ProtOk(e, r.o))
             \cup V("upgrade.told", ~CanReset(o) \/ UpgradeTold(o, e)),
             Observed(e, r.o))
      EXCEPT !.diff = Diff(e, r.o)]

Equals(e) ==
  LET a == objs[e.id] b == objs[e.a.b]
      near == {<<p[1], p[2]>> : p \in Range(e.a.near)}
      ok == Comparable(a) /\ Comparable(b)
      eq == Equal(a, b, e.a.exclude, near)
  IN Result(IF ~ExcludeOk(e.a.exclude) THEN V("equals.exclude", "ValueError" \in Range(e.exc))
            ELSE IF ~ok THEN {}
            ELSE V("equals.exc", e.exc = <<>>)
                 \cup V("equals.result", e.exc # <<>> \/ e.out.eq = eq)
                 \cup V("equals.warned", e.exc # <<>> \/ (e.out.warned <=> (~eq /\ e.a.verbose)))
                 \cup V("equals.data", DataOk(e, a) /\ ProtOk(e, a)), Observed(e, a))

Dim(e) ==
  LET o == objs[e.id]
      Ok(r) == /\ r.exc = "any" \/
                  (IF r.exc # "" THEN ExcOk(r.exc, e)
                   ELSE IF e.a.d \notin DOMAIN r.api THEN "ValueError" \in Range(e.exc)
                   ELSE e.exc = <<>> /\ e.out.v = r.api[e.a.d])
      R == DimsOutcomes(o)
      r0 == CHOOSE r \in R : TRUE
  IN Result(V("dim.value", \E r \in R : Ok(r)) \cup V("dim.data", DataOk(e, r0.o))
            \cup V("dim.prot", StaysProtected(e, o)), Observed(e, r0.o))
Dims_(e) ==
  LET o == objs[e.id]
      Ok(r) == r.exc = "any" \/ (IF r.exc # "" THEN ExcOk(r.exc, e) ELSE e.exc = <<>> /\ e.out.dims = r.api)
      Text(d) == e.out.texts[d] \in DimTexts(d, TextOf(o, "GLOBAL_DataType"), TextOf(o, "ReceiverPosition_Type"),
                                             TextOf(o, "EmitterPosition_Type"))
      R == DimsOutcomes(o)
      r0 == CHOOSE r \in R : TRUE
  IN Result(V("dims.value", \E r \in R : Ok(r)) \cup V("dims.text", /\ DOMAIN e.out.texts = DOMAIN e.out.dims
                              /\ \A d \in DOMAIN e.out.texts : Text(d)) \cup V("dim.data", DataOk(e, r0.o))
            \cup V("dim.prot", StaysProtected(e, o)), Observed(e, r0.o))

Inspect(e) ==
  LET o == objs[e.id]
      r == Verify(o, "write", "return")
      usable == ~r.vague /\ ~r.early /\ DOMAIN r.dims = Variables(r.o)
      p == r.o
      Ok(n) == n \in DOMAIN e.out.e /\ Shows(p, r, n, e.out.e[n])
  IN IF ~usable THEN Result(V("inspect.prot", StaysProtected(e, o)), Observed(e, r.o))
     ELSE [Result(V("inspect.prot", StaysProtected(e, o)) \cup V("inspect.exc", e.exc = <<>>)
                  \cup V("inspect.head", e.out.head = Header(p))
                  \cup V("inspect.names", DOMAIN e.out.e = DOMAIN p.data)
                  \cup V("inspect.lines", \A n \in DOMAIN p.data : Ok(n))
                  \cup V("inspect.file", e.out.same)
                  \cup V("inspect.data", DataOk(e, p)), Observed(e, p))
           EXCEPT !.diff = {n \in DOMAIN p.data : ~Ok(n)}]

Info(e) ==
  LET o == objs[e.id] IN
  IF \E n \in DOMAIN o.data : ~IsEntry(o, n) THEN Result({}, Observed(e, o))
  ELSE IF ~Claims(o) \/ "GLOBAL_Version" \notin DOMAIN o.data THEN Result(State(e, "info", o), Observed(e, o))
  ELSE IF ~InfoOk(e.a.what, o) THEN Result(V("info.exc", "ValueError" \in Range(e.exc)) \cup State(e, "info", o),
                                           Observed(e, o))
  ELSE LET names == InfoNames(o, e.a.what)
           Ok(n) == LET line == e.out.e[n] IN
                    /\ [t |-> line.t, dims |-> line.dims, m |-> line.m, r |-> line.r] = InfoEntry(o, n)
                    /\ InfoTexts(o, n, e.a.what, line)
       IN [Result(V("info.exc", e.exc = <<>>)
                  \cup V("info.repr", e.out.repr = Named(o))
                  \cup V("info.names", DOMAIN e.out.e = names)
                  \cup V("info.lines", \A n \in names \cap DOMAIN e.out.e : Ok(n))
                  \cup State(e, "info", o), Observed(e, o))
           EXCEPT !.diff = {n \in names \cap DOMAIN e.out.e : ~Ok(n)}]

-----------------------------------------------------------------------------
Check(e) ==
  CASE e.op = "new" -> New(e)
    [] e.op = "set" -> Set(e)
    [] e.op = "del" -> Del(e)
    [] e.op = "protect" -> Protect(e)
    [] e.op = "add" -> Add(e)
    [] e.op = "raw" -> Raw(e)
    [] e.op = "conventions" -> List(e)
    [] e.op = "addmissing" -> AddMissing(e)
    [] e.op = "verify" -> DoVerify(e)
    [] e.op = "copy" -> Copy(e)
    [] e.op = "poke" -> Poke(e)
    [] e.op = "probe" -> Probe(e)
    [] e.op = "write" -> Write(e)
    [] e.op = "interrupt" -> Interrupt(e)
    [] e.op \in {"mkfile", "rmfile"} -> Foreign(e)
    [] e.op = "read" -> Read(e)
    [] e.op = "readnc" -> ReadNC(e)
    [] e.op = "stream" -> Stream(e)
    [] e.op = "streamlist" -> StreamList(e)
    [] e.op = "streaminspect" -> StreamInspect(e)
    [] e.op = "sopen" -> StreamOpen(e)
    [] e.op = "sclose" -> StreamClose(e)
    [] e.op = "rt" -> RoundTrip(e)
    [] e.op = "upgrade" -> Upgrade(e)
    [] e.op = "equals" -> Equals(e)
    [] e.op = "dim" -> Dim(e)
    [] e.op = "dims" -> Dims_(e)
    [] e.op = "inspect" -> Inspect(e)
    [] e.op = "info" -> Info(e)
    [] e.op = "db" -> Result(V("db", ~e.out.changed), NoObject)
    [] e.op = "forget" -> Result({}, NoObject)

(* these calls neither print nor warn                                      *)
SilentOps == {"set", "del", "protect", "copy", "poke", "dim", "stream", "sopen", "sclose"}
Silent(e) == V("silent", e.op \notin SilentOps \/ ~e.noise)

(* no other object changes                                                 *)
Frame(e) == V("frame", DOMAIN e.ch \subseteq {e.id})

NoTarget == {"forget", "db", "mkfile", "rmfile", "stream", "streamlist", "streaminspect", "rt", "sopen", "sclose",
             "conventions"}
Resync(e, r) ==
  LET others == [i \in (DOMAIN objs) \ {e.id} |->
                   IF i \in DOMAIN e.ch
                     THEN [objs[i] EXCEPT !.data = After(e, i), !.prot = ProtAfter(e, i)]
                     ELSE objs[i]]
  IN IF e.op = "forget" THEN Restrict(objs, Range(e.a.keep))
     ELSE IF e.op \in NoTarget THEN objs
     ELSE IF e.op \in Creating /\ e.exc # <<>> THEN others
     ELSE (e.id :> r.o) @@ others

Init == l = 1 /\ objs = Empty /\ files = Empty /\ streams = Empty
Next ==
  /\ l <= Len(Trace)
  /\ LET e == Trace[l]
         r == Check(e)
         v == r.v \cup Frame(e) \cup Silent(e)
     IN /\ IF v = {} THEN TRUE
           ELSE PrintT(<<"VIOL", ToJson([l |-> l, op |-> e.op, id |-> e.id, ctx |-> e.ctx, c |-> v,
                                         diff |-> r.diff])>>)
        /\ objs' = Resync(e, r)
        /\ files' = r.f
        /\ streams' = Streams(e)
  /\ l' = l + 1
Done == l = Len(Trace) + 1
Report == Done => PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_vars
=============================================================================
