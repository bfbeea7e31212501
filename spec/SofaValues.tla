----------------------------- MODULE SofaValues -----------------------------
(***************************************************************************)
(* Abstract values.                                                        *)
(*                                                                         *)
(*   [k, t, sh, v, w]                                                      *)
(*   k : "s" str, "n" scalar, "a" numpy array, "l" (nested) list that is   *)
(*       assigned, "d" dict, "o" anything else, "x" something assigned     *)
(*       that can not be stored (lists of different lengths)               *)
(*   t : element type: i, u, f, b, c, U, S, O                              *)
(*   sh: shape,  v: elements in row-major order as tokens,                 *)
(*   w : lengths of the elements in bytes (text only)                      *)
(* Numbers are tokens: integers are written as integers whatever their     *)
(* element type, everything else with the shortest decimal representation. *)
(***************************************************************************)
EXTENDS SofaText

Str(s) == [k |-> "s", t |-> "U", sh |-> <<>>, v |-> <<s>>, w |-> <<Len(s)>>]
Num(s) == [k |-> "n", t |-> "i", sh |-> <<>>, v |-> <<s>>, w |-> <<>>]

RECURSIVE Size(_)
Size(sh) == IF sh = <<>> THEN 1 ELSE sh[1] * Size(Tail(sh))

Ones(n) == [i \in 1..n |-> 1]
Pad(sh, n) == IF Len(sh) >= n THEN sh ELSE sh \o Ones(n - Len(sh))
AllOnes(sh) == \A i \in DOMAIN sh : sh[i] = 1
Squeeze(sh) == SelectSeq(sh, LAMBDA x : x # 1)

(* np.atleast_1d, 2d, 3d (and appended dimensions for more than three)     *)
AtLeast(sh, n) ==
  CASE n <= 0 -> sh
    [] n = 1 -> IF sh = <<>> THEN <<1>> ELSE sh
    [] n = 2 -> IF sh = <<>> THEN <<1, 1>>
                ELSE IF Len(sh) = 1 THEN <<1>> \o sh ELSE sh
    [] OTHER -> IF sh = <<>> THEN Ones(n)
                ELSE IF Len(sh) = 1 THEN Pad(<<1>> \o sh, n) ELSE Pad(sh, n)

IsText(x) == x.t \in {"U", "S"}

(* What assigning the raw value x stores.                                  *)
Norm(x) ==
  IF x.k # "l" THEN x
  ELSE LET sh == AtLeast(x.sh, 2) IN
       IF Size(sh) = 1
         THEN [x EXCEPT !.k = IF x.t = "U" THEN "s" ELSE "n", !.sh = <<>>]
         ELSE [x EXCEPT !.k = "a", !.sh = sh]

(* Default of the convention upon creation: arrays get the number of       *)
(* dimensions n of the entry.  Otherwise defaults are simply assigned.     *)
CreationValue(x, n) ==
  IF x.k = "l" THEN [x EXCEPT !.k = "a", !.sh = AtLeast(x.sh, n)] ELSE x

(* Data that is stored on disk and read again: equal elements, equal shape *)
(* up to singleton dimensions if there is only a single element.           *)
SameShape(a, b) == a.sh = b.sh \/ (AllOnes(a.sh) /\ AllOnes(b.sh))
SameStored(a, b) ==
  /\ a.v = b.v
  /\ IsText(a) = IsText(b)
  /\ SameShape(a, b)

-----------------------------------------------------------------------------
(* np.moveaxis for single axes (given 0-based), data padded with trailing  *)
(* singleton dimensions                                                    *)
Axes(n, src, dst) ==
  LET rest == SelectSeq([i \in 1..n |-> i], LAMBDA i : i # src + 1)
  IN SubSeq(rest, 1, dst) \o <<src + 1>> \o SubSeq(rest, dst + 1, n - 1)

RECURSIVE Multi(_, _)
Multi(i, sh) ==        \* 0-based flat index -> sequence of 0-based indices
  IF sh = <<>> THEN <<>>
  ELSE LET s == Size(Tail(sh)) IN <<i \div s>> \o Multi(i % s, Tail(sh))
RECURSIVE Flat(_, _)
Flat(m, sh) ==
  IF sh = <<>> THEN 0 ELSE m[1] * Size(Tail(sh)) + Flat(Tail(m), Tail(sh))

MoveAxis(x, src, dst) ==
  LET n  == MaxOf({Len(x.sh), src + 1, dst + 1})
      sh == Pad(x.sh, n)
      ax == Axes(n, src, dst)
      new == [j \in 1..n |-> sh[ax[j]]]
      Old(i) == LET m == Multi(i - 1, new)
                IN Flat([a \in 1..n |-> m[CHOOSE j \in 1..n : ax[j] = a]], sh) + 1
  IN [x EXCEPT !.k = "a", !.sh = new,
               !.v = [i \in 1..Len(x.v) |-> x.v[Old(i)]],
               !.w = IF x.w = <<>> THEN <<>> ELSE [i \in 1..Len(x.w) |-> x.w[Old(i)]]]
=============================================================================
