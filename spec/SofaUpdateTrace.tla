-------------------------- MODULE SofaUpdateTrace ---------------------------
(***************************************************************************)
(* Validation of recorded updates.  Event:                                 *)
(*  a: [assume, answer, fails], remote: [std, dep, text] (sequences),      *)
(*  before, after: [std, dep: name -> text, json: [std, dep], other]       *)
(*    json: name -> [order, e, raw], other: path -> check sum              *)
(*  out: [exc, asked, fetched, clean, same]; clean: no temporary files remain; same: names of the files that are    *)
(*  bit for bit the same before and after                                  *)
(* or (op = "congruency") a: [fails, save: "none", "missing", or "folder"] *)
(*  org, box: name -> text, out: [exc, said, lines: [box, org, differ, more], saved: [org, box, other]] *)
(***************************************************************************)
EXTENDS SofaCongruency, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.SOFA_TRACE)
VARIABLE l
V(clause, ok) == IF ok THEN {} ELSE {clause}

Json(n) == SubSeq(n, 1, Len(n) - 3) \o "json"
Sources(x) == [std |-> x.std, dep |-> x.dep]
CompileClauses(text, j) ==
  LET want == Compiled(text) IN
  IF DOMAIN j.e # DOMAIN want THEN {"compile.names"}
  ELSE V("compile.order", j.order = Order(text))
       \cup UNION {
         V("compile.default", j.e[n].default = want[n].default)
         \cup V("compile.flags", j.e[n].flags = want[n].flags)
         \cup V("compile.dimensions", j.e[n].dimensions = want[n].dimensions)
         \cup V("compile.type", j.e[n].type = want[n].type)
         \cup V("compile.comment", j.e[n].comment = want[n].comment) : n \in DOMAIN want}

Check(e) ==
  LET local == Sources(e.before)
      remote == [std |-> Range(e.remote.std), dep |-> Range(e.remote.dep), text |-> e.remote.text]
      todo == Todo(local, remote)
      after == DoUpdate(local, remote, e.a.assume, e.a.answer, e.a.fails)
      got == Sources(e.after)
      happens == ~e.a.fails /\ todo # {} /\ Confirmed(e.a.assume, e.a.answer)
      compiled == {<<"std", n>> : n \in DOMAIN got.std} \cup {<<"dep", n>> : n \in DOMAIN got.dep}
      stays == {<<"std", n>> : n \in (DOMAIN local.std) \ todo}
               \cup {<<"dep", n>> : n \in (DOMAIN local.dep) \ todo}
      same == {<<s[1], s[2]>> : s \in Range(e.out.same)}
  IN V("update.exc", e.a.fails <=> e.out.exc # <<>>)
     \cup V("update.asked", e.a.fails \/ (e.out.asked <=> Asked(local, remote, e.a.assume)))
     \cup V("update.fetched", \A n \in Range(e.out.fetched) : ~Skipped(n))
     \cup V("update.std", SameTexts(after.std, got.std))
     \cup V("update.dep", SameTexts(after.dep, got.dep))
     \cup V("update.same", \A s \in stays : s \in same)
     \cup V("update.clean", e.out.clean)
     \cup V("update.other", e.before.other = e.after.other)
     \cup (IF ~happens THEN V("update.nothing", e.before.json = e.after.json)
           ELSE V("update.json", /\ DOMAIN e.after.json.std = {Json(n) : n \in DOMAIN got.std}
                                 /\ DOMAIN e.after.json.dep = {Json(n) : n \in DOMAIN got.dep})
                \cup UNION {IF Json(s[2]) \in DOMAIN e.after.json[s[1]] /\ Well(got[s[1]][s[2]])
                            THEN CompileClauses(got[s[1]][s[2]], e.after.json[s[1]][Json(s[2])])
                            ELSE {} : s \in compiled})

Congruent(e) ==
  LET r == Report_(e.org, e.box)
      want == Saved(e.org, e.box)
      bad == e.a.fails \/ e.a.save = "missing" \/ e.org = Empty \/ e.box = Empty
      n == e.out.lines
      save == e.a.save = "folder" /\ ~bad
  IN IF bad THEN V("congruency.exc", e.out.exc # <<>>)
                 \cup V("congruency.missing", e.a.save = "missing" => "ValueError" \in Range(e.out.exc))
     ELSE V("congruency.exc", e.out.exc = <<>>)
          \cup V("congruency.box", Range(n.box) = r.box /\ Len(n.box) = Cardinality(r.box))
          \cup V("congruency.org", Range(n.org) = r.org /\ Len(n.org) = Cardinality(r.org))
          \cup V("congruency.differ", Range(n.differ) = r.differ /\ Len(n.differ) = Cardinality(r.differ))
          \cup V("congruency.silent", e.out.said <=> ~Silent(r))
          \cup V("congruency.saved",
                 /\ SameTexts(e.out.saved.org, IF save THEN want.org ELSE Empty)
                 /\ SameTexts(e.out.saved.box, IF save THEN want.box ELSE Empty))
          \cup V("congruency.other", e.out.saved.other = <<>>)

Init == l = 1
Next ==
  /\ l <= Len(Trace)
  /\ LET v == IF Trace[l].op = "congruency" THEN Congruent(Trace[l]) ELSE Check(Trace[l])
     IN IF v = {} THEN TRUE
        ELSE PrintT(<<"VIOL", ToJson([l |-> l, op |-> Trace[l].op, id |-> "", ctx |-> Trace[l].ctx,
                                      c |-> v, diff |-> {}])>>)
  /\ l' = l + 1
Done == l = Len(Trace) + 1
Report == Done => PrintT(<<"DONE", Len(Trace)>>)
Spec == Init /\ [][Next]_l
=============================================================================
