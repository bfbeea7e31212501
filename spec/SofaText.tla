------------------------------ MODULE SofaText ------------------------------
(***************************************************************************)
(* Operators on text.  TLC evaluates Len, SubSeq and \o on strings, so the *)
(* i-th character of a string is SubSeq(s, i, i).  Characters outside      *)
(* printable ASCII are escaped as ~XXXX by the harness.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O",
              "P","Q","R","S","T","U","V","W","X","Y","Z">>
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o",
              "p","q","r","s","t","u","v","w","x","y","z">>
UpperSet == {UpperSeq[i] : i \in 1..26}
LowerSet == {LowerSeq[i] : i \in 1..26}
ToLow == [c \in UpperSet |-> LowerSeq[CHOOSE i \in 1..26 : UpperSeq[i] = c]]
ToUpp == [c \in LowerSet |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c]]

Ch(s, i) == SubSeq(s, i, i)
Idx(s) == 1..Len(s)

AsciiUpper(s) == \E i \in Idx(s) : Ch(s, i) \in UpperSet
(* capital letters outside ASCII (of those that occur in the traces)       *)
OtherUpper == {"~0003a9", "~0000c4", "~0000d6", "~0000dc"}
HasUpper(s) == AsciiUpper(s) \/ \E i \in Idx(s) :
                 Ch(s, i) = "~" /\ i + 6 <= Len(s) /\ SubSeq(s, i, i + 6) \in OtherUpper
HasLower(s) == \E i \in Idx(s) : Ch(s, i) \in LowerSet

RECURSIVE LowerFrom(_, _)
LowerFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Ch(s, i) \in UpperSet THEN ToLow[Ch(s, i)] ELSE Ch(s, i))
       \o LowerFrom(s, i + 1)
Lower(s) == IF AsciiUpper(s) THEN LowerFrom(s, 1) ELSE s

RECURSIVE UpperFrom(_, _)
UpperFrom(s, i) ==
  IF i > Len(s) THEN ""
  ELSE (IF Ch(s, i) \in LowerSet THEN ToUpp[Ch(s, i)] ELSE Ch(s, i))
       \o UpperFrom(s, i + 1)
Upper(s) == IF HasLower(s) THEN UpperFrom(s, 1) ELSE s

StartsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
EndsWith(s, p) == Len(s) >= Len(p) /\ SubSeq(s, Len(s) - Len(p) + 1, Len(s)) = p
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Contains(s, p) == \E i \in 1..(Len(s) - Len(p) + 1) : SubSeq(s, i, i + Len(p) - 1) = p
Count(s, c) == Cardinality({i \in Idx(s) : Ch(s, i) = c})
HasCh(s, c) == \E i \in Idx(s) : Ch(s, i) = c

(* s without its last part: "Data_IR_Units" -> "Data_IR" (s contains c)    *)
LastIdx(s, c) == CHOOSE i \in Idx(s) : /\ Ch(s, i) = c
                                       /\ \A j \in (i + 1)..Len(s) : Ch(s, j) # c
BeforeLast(s, c) == SubSeq(s, 1, LastIdx(s, c) - 1)
AfterLast(s, c) == Drop(s, LastIdx(s, c))

(* s.replace("Data_", "")                                                  *)
RECURSIVE Without(_, _)
Without(s, p) ==
  IF ~Contains(s, p) THEN s
  ELSE LET i == CHOOSE i \in 1..(Len(s) - Len(p) + 1) :
                  /\ SubSeq(s, i, i + Len(p) - 1) = p
                  /\ \A j \in 1..(i - 1) : SubSeq(s, j, j + Len(p) - 1) # p
       IN SubSeq(s, 1, i - 1) \o Without(Drop(s, i + Len(p) - 1), p)

StripPrefix(s, p) == IF StartsWith(s, p) THEN Drop(s, Len(p)) ELSE s

(* Split at commas (with at most one following space) and optionally at    *)
(* spaces, i.e. the regular expressions ', ?' and ', ?| '.                 *)
RECURSIVE SplitFrom(_, _, _)
SplitFrom(s, cur, spaces) ==
  IF Len(s) = 0 THEN <<cur>>
  ELSE LET c == Ch(s, 1) IN
       IF c = ","
         THEN <<cur>> \o SplitFrom(Drop(s, IF Len(s) > 1 /\ Ch(s, 2) = " " THEN 2 ELSE 1),
                                   "", spaces)
       ELSE IF c = " " /\ spaces THEN <<cur>> \o SplitFrom(Drop(s, 1), "", spaces)
       ELSE SplitFrom(Drop(s, 1), cur \o c, spaces)
Split(s, spaces) == SplitFrom(s, "", spaces)

(* dimensions as a sequence of letters                                     *)
Letters(s) == [i \in Idx(s) |-> Ch(s, i)]

Range(f) == {f[x] : x \in DOMAIN f}
Restrict(f, S) == [x \in (DOMAIN f) \cap S |-> f[x]]
Remove(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Empty == [x \in {} |-> ""]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
=============================================================================
