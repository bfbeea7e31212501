------------------------------ MODULE SofaFile ------------------------------
(***************************************************************************)
(* Files, writing, and reading.  A file is                                 *)
(*   [g, dims, v]                                                          *)
(*   g: global attributes, name -> text                                    *)
(*   dims: name -> size                                                    *)
(*   v: variables, name -> [d, t, sh, x, w, a]: names of the dimensions,   *)
(*      type ("f8", "S1" or others), shape (without the dimension of       *)
(*      characters), elements, lengths of text, attributes                 *)
(* The state of a folder is a function from file names to files.           *)
(***************************************************************************)
EXTENDS SofaVerify

FileName(p) == IF EndsWith(p, ".sofa") THEN p ELSE p \o ".sofa"

(* names in files and in objects                                           *)
ToFile(n) == IF StartsWith(n, "Data_") THEN "Data." \o Drop(n, 5) ELSE n
RECURSIVE DotsToUnderscores(_)
DotsToUnderscores(s) ==
  IF s = "" THEN "" ELSE (IF Ch(s, 1) = "." THEN "_" ELSE Ch(s, 1)) \o DotsToUnderscores(Drop(s, 1))
FromFile(n) == IF HasCh(n, ".") THEN DotsToUnderscores(n) ELSE n

-----------------------------------------------------------------------------
(* Writing: the file that belongs to a valid object                        *)
AttrNames(o) == {n \in DOMAIN o.data : IsAttr(o, n)}
AttrsOf(o, v) ==
  LET A == {n \in AttrNames(o) : ~StartsWith(n, "GLOBAL_") /\ HasCh(n, "_") /\ BeforeLast(n, "_") = v}
  IN [a \in {AfterLast(n, "_") : n \in A} |-> o.data[v \o "_" \o a].v[1]]

VarOf(o, r, n) ==
  LET x == o.data[n]
      d == r.dims[n]
      text == Entry(o, n).t = "string"
      sizes == [i \in DOMAIN d |-> r.api[d[i]]]
  IN [d |-> d, t |-> IF text THEN "S1" ELSE "f8",
      sh |-> IF text THEN SubSeq(sizes, 1, Len(sizes) - 1) ELSE sizes,
      x |-> x.v, w |-> IF text THEN x.w ELSE <<>>, a |-> AttrsOf(o, n)]

FileOf(o, r) ==
  LET G == {n \in DOMAIN o.data : StartsWith(n, "GLOBAL_")}
      V == DOMAIN o.data \ AttrNames(o)
  IN [g |-> [a \in {Drop(n, 7) : n \in G} |-> o.data["GLOBAL_" \o a].v[1]],
      dims |-> r.api,
      v |-> [f \in {ToFile(n) : n \in V} |->
               LET n == CHOOSE m \in V : ToFile(m) = f IN VarOf(o, r, n)]]

(* custom names that netCDF can store                                      *)
Plain(s) == /\ s # "" /\ ~HasCh(s, "/")
            /\ Ch(s, 1) # " " /\ Ch(s, Len(s)) # " "
Storable(o) ==
  \A n \in DOMAIN o.cust \cap DOMAIN o.data :
    IF o.cust[n].t = "attribute"
      THEN LET a == IF StartsWith(n, "GLOBAL_") THEN Drop(n, 7) ELSE AfterLast(n, "_")
           IN Plain(a) /\ a \notin {"CLASS", "NAME"}
      ELSE Plain(n)

(* comp: level of compression                                              *)
DoWrite(o, comp) ==
  LET name == ClaimedName(o)
      r == Verify(o, "write", "raise")
  IN IF "GLOBAL_SOFAConventions" \notin DOMAIN o.data
       THEN Outcome("any", o, {})
     ELSE IF name \notin ConvNames THEN Outcome("Error", o, {})
     ELSE IF r.exc # "" \/ r.vague \/ (Storable(o) /\ comp \in 0..9) THEN r
     ELSE [r EXCEPT !.exc = "Error"]
Outdated(o) == /\ ClaimedName(o) \in ConvNames
               /\ CanReset(o)
               /\ Convs[ConvId(ClaimedName(o), ClaimedVersion(o))].vnum
                    < Convs[Latest(ClaimedName(o))].vnum

-----------------------------------------------------------------------------
(* Reading                                                                 *)
AttrValue(s) == IF StartsWith(s, "#") THEN Num(Drop(s, 1)) ELSE Str(s)
VarValue(v) ==
  [k |-> IF Size(v.sh) = 1 THEN (IF v.t = "S1" THEN "s" ELSE "n") ELSE "a",
   t |-> IF v.t = "S1" THEN "U" ELSE IF v.t = "f8" THEN "f" ELSE v.t,
   sh |-> IF Size(v.sh) = 1 THEN <<>> ELSE v.sh, v |-> v.x, w |-> v.w]

(* name in the object -> value                                             *)
DataOf(f) ==
  [n \in {"GLOBAL_" \o a : a \in DOMAIN f.g} |-> AttrValue(f.g[Drop(n, 7)])]
  @@ [n \in {FromFile(v) : v \in DOMAIN f.v} |->
        VarValue(f.v[CHOOSE v \in DOMAIN f.v : FromFile(v) = n])]
  @@ [n \in UNION {{FromFile(v) \o "_" \o a : a \in DOMAIN f.v[v].a} : v \in DOMAIN f.v} |->
        LET v == CHOOSE v \in DOMAIN f.v : \E a \in DOMAIN f.v[v].a : FromFile(v) \o "_" \o a = n
            a == CHOOSE a \in DOMAIN f.v[v].a : FromFile(v) \o "_" \o a = n
        IN AttrValue(f.v[v].a[a])]

(* elements that were never written are missing                            *)
MissingData(f) == {FromFile(v) : v \in {v \in DOMAIN f.v : f.v[v].t # "S1" /\ "--" \in Range(f.v[v].x)}}

RECURSIVE Letters_(_)
Letters_(d) == IF d = <<>> THEN "" ELSE Head(d) \o Letters_(Tail(d))
CustomOf(f, names) ==
  LET var(n) == {v \in DOMAIN f.v : FromFile(v) = n}
  IN [n \in names |->
        IF var(n) = {} THEN [t |-> "attribute", dims |-> <<>>]
        ELSE LET v == f.v[CHOOSE v \in var(n) : TRUE]
             IN [t |-> IF v.t = "S1" THEN "string" ELSE "double",
                 dims |-> CustomDims(Letters_(
                   (* strings are joined along the last dimension *)
                   IF v.t = "S1" THEN Append(SubSeq(v.d, 1, Len(v.d) - 1), "S") ELSE v.d))]]

FileConv(f) == IF {"SOFAConventions", "SOFAConventionsVersion"} \subseteq DOMAIN f.g
                 THEN <<f.g["SOFAConventions"], f.g["SOFAConventionsVersion"]>>
                 ELSE <<"?", "?">>

(* [exc, o, warn]: exc "Error" stands for any exception                    *)
DoRead(files, path, verify) ==
  LET p == FileName(path) IN
  IF p \notin DOMAIN files THEN [exc |-> "ValueError", o |-> NoObject, warn |-> {}]
  ELSE LET f == files[p] cv == FileConv(f) IN
  IF cv = <<"?", "?">> THEN [exc |-> "Error", o |-> NoObject, warn |-> {}]
  ELSE IF ~Exists(cv[1], cv[2]) THEN [exc |-> "ValueError", o |-> NoObject, warn |-> {}]
  ELSE
  LET c == ConvId(cv[1], cv[2])
      data == DataOf(f)
      o == [conv |-> c, rocv |-> c, data |-> data, prot |-> TRUE,
            cust |-> CustomOf(f, DOMAIN data \ DOMAIN Entries(c))]
      check == verify = "true" \/ (verify = "auto" /\ Convs[c].stable)
      r == Verify(o, "read", "raise")
  IN IF ~check THEN [exc |-> "", o |-> o, warn |-> Preliminary(o)]
     ELSE IF r.exc # "" THEN [exc |-> IF r.vague THEN "any" ELSE "ValueError", o |-> NoObject, warn |-> {}]
     ELSE [exc |-> "", o |-> r.o, warn |-> r.issues \cup Preliminary(o)]

DoReadNC(files, path) ==
  LET p == FileName(path) IN
  IF p \notin DOMAIN files THEN [exc |-> "ValueError", o |-> NoObject, warn |-> {}]
  ELSE LET data == DataOf(files[p]) IN
  [exc |-> "", warn |-> {},
   o |-> [conv |-> "", rocv |-> "", data |-> data, prot |-> TRUE,
          cust |-> CustomOf(files[p], DOMAIN data)]]

(* equal up to number type and singleton dimensions                        *)
SameData(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A n \in DOMAIN a : SameStored(a[n], b[n])

(* written and read again: the shape may have lost or gained singletons    *)
SameWritten(a, b) == a.v = b.v /\ IsText(a) = IsText(b) /\ Squeeze(a.sh) = Squeeze(b.sh)

-----------------------------------------------------------------------------
(* Streams: what accessing the name n gives                                *)
StreamValue(f, n) ==
  LET vars == {v \in DOMAIN f.v : FromFile(v) = n /\ ToFile(n) = v}
      attrs == {v \in DOMAIN f.v : \E a \in DOMAIN f.v[v].a :
                  FromFile(v) \o "_" \o a = n /\ ToFile(FromFile(v)) = v}
  IN IF StartsWith(n, "GLOBAL_")
       THEN IF Drop(n, 7) \in DOMAIN f.g
              THEN [k |-> "attr", sh |-> <<>>, x |-> <<f.g[Drop(n, 7)]>>, w |-> <<>>]
              ELSE [k |-> "exc", sh |-> <<>>, x |-> <<"AttributeError">>, w |-> <<>>]
     ELSE IF vars # {}
       THEN LET v == f.v[CHOOSE v \in vars : TRUE]
            IN [k |-> "var", sh |-> v.sh, x |-> v.x, w |-> v.w]
     ELSE IF attrs # {}
       THEN LET v == CHOOSE v \in attrs : TRUE
                a == CHOOSE a \in DOMAIN f.v[v].a : FromFile(v) \o "_" \o a = n
            IN [k |-> "attr", sh |-> <<>>, w |-> <<>>, x |-> <<f.v[v].a[a]>>]
     ELSE [k |-> "exc", sh |-> <<>>, x |-> <<"AttributeError">>, w |-> <<>>]

(* the meaning of the dimensions is known                                  *)
CanList(f) ==
  /\ "DataType" \in DOMAIN f.g
  /\ ~StartsWith(f.g["DataType"], "#")
  /\ \A n \in {"ReceiverPosition", "EmitterPosition"} :
        n \in DOMAIN f.v /\ "Type" \in DOMAIN f.v[n].a /\ ~StartsWith(f.v[n].a["Type"], "#")
=============================================================================
