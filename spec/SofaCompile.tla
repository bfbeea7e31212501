---------------------------- MODULE SofaCompile -----------------------------
(***************************************************************************)
(* Sources of conventions (tables in text files) and what they mean.       *)
(*                                                                         *)
(* A text is a sequence of lines [c, r]: c are the cells (separated by     *)
(* tabs in the file), r is TRUE if the line ends with a carriage return.   *)
(***************************************************************************)
EXTENDS SofaText

RECURSIVE DropEmpty(_)
DropEmpty(c) == IF c # <<>> /\ c[Len(c)] = "" THEN DropEmpty(SubSeq(c, 1, Len(c) - 1)) ELSE c
(* line endings and trailing tabs have no meaning                          *)
NormText(text) == [i \in DOMAIN text |-> DropEmpty(text[i].c)]

-----------------------------------------------------------------------------
Blank(s) == \A i \in Idx(s) : Ch(s, i) = " "
RECURSIVE Strip(_)
Strip(s) == IF s # "" /\ Ch(s, 1) = " " THEN Strip(Drop(s, 1))
            ELSE IF s # "" /\ Ch(s, Len(s)) = " " THEN Strip(SubSeq(s, 1, Len(s) - 1))
            ELSE s
RECURSIVE DropBlank(_)
DropBlank(c) == IF c # <<>> /\ Blank(c[Len(c)]) THEN DropBlank(SubSeq(c, 1, Len(c) - 1)) ELSE c

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
AllDigits(s) == \A i \in Idx(s) : Ch(s, i) \in Digits
Unsigned(s) == IF s # "" /\ Ch(s, 1) \in {"-", "+"} THEN Drop(s, 1) ELSE s
IsNumber(s) ==
  LET u == Unsigned(s) IN
  IF ~HasCh(u, ".") THEN u # "" /\ AllDigits(u)
  ELSE /\ Count(u, ".") = 1 /\ Len(u) > 1
       /\ AllDigits(BeforeLast(u, ".")) /\ AllDigits(AfterLast(u, "."))
RECURSIVE NoLeading(_)
NoLeading(s) == IF Len(s) > 1 /\ Ch(s, 1) = "0" THEN NoLeading(Drop(s, 1)) ELSE s
RECURSIVE NoTrailing(_)
NoTrailing(s) == IF s # "" /\ Ch(s, Len(s)) = "0" THEN NoTrailing(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* one text for each number: "-01.50" -> "-1.5"                            *)
Canonical(s) ==
  LET u == Unsigned(s)
      whole == NoLeading(IF HasCh(u, ".") THEN "0" \o BeforeLast(u, ".") ELSE u)
      frac == IF HasCh(u, ".") THEN NoTrailing(AfterLast(u, ".")) ELSE ""
      mag == IF frac = "" THEN whole ELSE whole \o "." \o frac
  IN IF mag # "0" /\ Ch(s, 1) = "-" THEN "-" \o mag ELSE mag

RECURSIVE Tokens(_, _)
Tokens(s, cur) ==
  IF s = "" THEN (IF cur = "" THEN <<>> ELSE <<cur>>)
  ELSE IF Ch(s, 1) \in {" ", ","}
    THEN (IF cur = "" THEN <<>> ELSE <<cur>>) \o Tokens(Drop(s, 1), "")
  ELSE Tokens(Drop(s, 1), cur \o Ch(s, 1))
RECURSIVE Rows(_, _)
Rows(s, cur) ==
  IF s = "" THEN <<cur>>
  ELSE IF Ch(s, 1) = ";" THEN <<cur>> \o Rows(Drop(s, 1), "")
  ELSE Rows(Drop(s, 1), cur \o Ch(s, 1))
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Canon(seq) == [i \in DOMAIN seq |-> Canonical(seq[i])]

(* values: k "null", "s" (text), "n" (number), or "a" (array)              *)
Value(k, sh, v) == [k |-> k, sh |-> sh, v |-> v]
Null == Value("null", <<>>, <<>>)
Text(s) == Value("s", <<>>, <<s>>)
ArrayOf(s) ==
  LET rows == [i \in DOMAIN Rows(SubSeq(s, 2, Len(s) - 1), "") |->
                 Tokens(Rows(SubSeq(s, 2, Len(s) - 1), "")[i], "")]
  IN IF Len(rows) = 1 THEN Value("a", <<Len(rows[1])>>, Canon(rows[1]))
     ELSE Value("a", <<Len(rows), Len(rows[1])>>, Canon(Flat(rows)))
Cell(s0) ==
  LET s == Strip(s0) IN
  IF s = "" THEN Null
  ELSE IF Ch(s, 1) = "[" THEN ArrayOf(s)
  ELSE IF IsNumber(s) THEN Value("n", <<>>, <<Canonical(s)>>)
  ELSE Text(s)

Sos == <<"0", "0", "0", "1", "0", "0">>
Default(name, s0) ==
  LET s == Strip(s0) x == Cell(s0) IN
  CASE s = "permute([0 0 0 1 0 0; 0 0 0 1 0 0], [3 1 2]);" -> Value("a", <<1, 2, 6>>, Sos \o Sos)
    [] s = "permute([0 0 0 1 0 0], [3 1 2]);" -> Value("a", <<1, 1, 6>>, Sos)
    [] s = "{''}" -> Value("a", <<1>>, <<"">>)
    [] x.k = "null" -> Text("")
    [] x.k = "n" /\ Contains(name, "Version") ->
         Text(IF HasCh(x.v[1], ".") THEN x.v[1] ELSE x.v[1] \o ".0")
    [] OTHER -> x

(* the entry of a row (without the name)                                   *)
Entry_(c) ==
  [default |-> Default(Strip(c[1]), c[2]), flags |-> Cell(c[3]), dimensions |-> Cell(c[4]),
   type |-> Cell(c[5]), comment |-> IF Len(c) < 6 THEN Text("") ELSE Cell(c[6])]
Well(text) == \A i \in 2..Len(text) : Len(DropBlank(text[i].c)) >= 5
Compiled(text) ==
  LET rows == [i \in 1..(Len(text) - 1) |-> DropBlank(text[i + 1].c)]
      names == {Strip(rows[i][1]) : i \in DOMAIN rows}
  IN [n \in names |-> Entry_(rows[CHOOSE i \in DOMAIN rows : Strip(rows[i][1]) = n])]

(* order of the entries: global ones, all others, data                     *)
Order(text) ==
  LET names == [i \in 1..(Len(text) - 1) |-> Strip(text[i + 1].c[1])]
      global(n) == Contains(n, "GLOBAL")
      data(n) == StartsWith(n, "Data")
  IN SelectSeq(names, LAMBDA n : global(n) /\ ~data(n))
     \o SelectSeq(names, LAMBDA n : ~global(n) /\ ~data(n))
     \o SelectSeq(names, data)
=============================================================================
