------------------------------- MODULE Sofar --------------------------------
(***************************************************************************)
(* The state machine: objects and files, and what each call does to them.  *)
(* A call is a record [op, id, a] as in SofaTrace.                         *)
(***************************************************************************)
EXTENDS SofaQuery

VARIABLES objs,     \* id -> object
          files     \* file name -> file

(* o: object (of the call) afterwards, f: files afterwards, gone: is there *)
(* no object afterwards?, vague: the outcome is not specified              *)
Out(exc, o) == [exc |-> exc, o |-> o, f |-> files, gone |-> FALSE, vague |-> exc = "any"]
NoOut(exc) == [exc |-> exc, o |-> NoObject, f |-> files, gone |-> TRUE, vague |-> exc = "any"]

Creates == {"new", "copy", "read", "readnc"}
Possible(c) ==
  CASE c.op = "new" -> TRUE
    [] c.op = "copy" -> c.a.src \in DOMAIN objs
    [] c.op \in {"read", "readnc"} -> TRUE
    [] c.op = "equals" -> {c.id, c.a.b} \subseteq DOMAIN objs
    [] c.op \in {"stream", "streamlist"} -> FileName(c.a.path) \in DOMAIN files
    [] c.op = "upgrade" -> c.id \in DOMAIN objs /\ Claims(objs[c.id]) /\ "GLOBAL_Version" \in DOMAIN objs[c.id].data
    [] OTHER -> c.id \in DOMAIN objs

NewId(a) == IF a.conv \notin ConvNames THEN ""
            ELSE IF a.version = "latest" THEN Latest(a.conv)
            ELSE IF Exists(a.conv, a.version) THEN ConvId(a.conv, a.version) ELSE ""

Result_(c) ==
  LET a == c.a
      o == IF c.op \in Creates \cup {"stream", "streamlist"} THEN NoObject ELSE objs[c.id]
  IN CASE c.op = "new" -> LET id == NewId(a) IN
            IF id = "" THEN NoOut("ValueError") ELSE Out("", NewObject(id, a.mandatory))
       [] c.op = "set" -> LET r == DoSet(o, a.n, a.x) IN Out(r.exc, r.o)
       [] c.op = "del" -> LET r == DoDel(o, a.n) IN Out(r.exc, r.o)
       [] c.op = "protect" -> LET r == DoProtect(o, a.bool, a.v) IN Out(r.exc, r.o)
       [] c.op = "add" -> LET r == DoAdd(o, a.n, a.x, a.t, a.dims) IN Out(r.exc, r.o)
       [] c.op = "addmissing" -> LET r == DoAddMissing(o, a.m, a.o) IN Out(r.exc, r.o)
       [] c.op = "verify" -> LET r == Verify(o, a.mode, a.handling) IN
            [Out(r.exc, r.o) EXCEPT !.vague = r.vague]
       [] c.op = "copy" -> Out("", objs[a.src])
       [] c.op = "write" -> LET r == DoWrite(o, 4) IN
            [Out(r.exc, r.o) EXCEPT !.vague = r.vague \/ r.exc = "any",
               !.f = IF r.exc = "" /\ ~r.vague THEN (FileName(a.path) :> FileOf(o, r)) @@ files ELSE files]
       [] c.op = "read" -> LET r == DoRead(files, a.path, a.verify) IN
            IF r.exc # "" THEN NoOut(r.exc) ELSE Out("", r.o)
       [] c.op = "readnc" -> LET r == DoReadNC(files, a.path) IN
            IF r.exc # "" THEN NoOut(r.exc) ELSE Out("", r.o)
       [] c.op = "upgrade" -> LET r == DoUpgrade(o, a.target, a.verify) IN Out(r.exc, r.o)
       [] c.op \in {"dim", "dims", "inspect"} ->
            LET r == Verify(o, "write", "return") IN [Out("", r.o) EXCEPT !.vague = r.vague]
       [] OTHER -> Out("", o)

(* objects after the call                                                  *)
Objects(c, r) ==
  IF c.op \in {"stream", "streamlist"} THEN objs
  ELSE IF r.gone THEN Remove(objs, {c.id})
  ELSE (c.id :> r.o) @@ objs
=============================================================================
